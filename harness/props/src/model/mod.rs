//! Reference models.

pub mod rng;
pub mod util;
pub mod sha;
#[cfg(any(feature = "c24", feature = "c25", feature = "c26"))]
pub mod sig;
#[cfg(any(feature = "c27", feature = "c28", feature = "c29", feature = "c30"))]
pub mod dvar;
#[cfg(any(feature = "c33", feature = "c34"))]
pub mod pull;
#[cfg(feature = "c38")]
pub mod elfnum;
#[cfg(any(feature = "c01", feature = "c02", feature = "c03"))]
pub mod push;
#[cfg(any(feature = "c04", feature = "c05", feature = "c06", feature = "c07"))]
pub mod args;
