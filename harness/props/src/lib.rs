//! Harnesses, one module per property.
#![no_std]
#![allow(clippy::all)]

extern crate alloc;
#[cfg(any(feature = "c39", feature = "c40"))]
extern crate std;

pub mod model;
pub mod rt;

macro_rules! props {
    ($(($m:ident, $f:literal)),* $(,)?) => {
        $(#[cfg(feature = $f)] pub mod $m;)*
        /// All harnesses compiled in.
        pub fn lookup(name: &str) -> Option<fn()> {
            let _ = name;
            $(
                #[cfg(feature = $f)]
                for (n, f) in $m::TABLE {
                    if *n == name {
                        return Some(*f);
                    }
                }
            )*
            None
        }
    };
}

props!(
    (c01, "c01"), (c02, "c02"), (c03, "c03"), (c04, "c04"), (c05, "c05"), (c06, "c06"), (c07, "c07"), (c08, "c08"), (c09, "c09"), (c10, "c10"), (c11, "c11"), (c12, "c12"),
    (c13, "c13"), (c14, "c14"), (c15, "c15"), (c16, "c16"),
    (c17, "c17"), (c18, "c18"), (c19, "c19"), (c20, "c20"),
    (c21, "c21"), (c22, "c22"), (c23, "c23"), (c24, "c24"),
    (c25, "c25"), (c26, "c26"), (c27, "c27"), (c28, "c28"), (c29, "c29"), (c30, "c30"), (c31, "c31"), (c32, "c32"), (c33, "c33"), (c34, "c34"), (c35, "c35"), (c36, "c36"), (c37, "c37"), (c38, "c38"),
    (c39, "c39"), (c40, "c40"), (c41, "c41"), (c42, "c42"),
);
