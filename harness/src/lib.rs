//! Property harnesses. The same sources are compiled twice: against the symbolic
//! stand-in of num-bigint (feature "symbolic"), where inputs are symbolic, and against
//! the real num-bigint, where a counterexample's concrete inputs are replayed.

#[cfg(feature = "symbolic")]
#[path = "sym.rs"]
pub mod sym;
#[cfg(not(feature = "symbolic"))]
#[path = "native.rs"]
pub mod sym;

pub mod spec;

pub use num_bigint::{BigInt, BigUint};
pub use num_rational::Ratio;
pub use sym::*;

/// one check of a property: a function over symbolic inputs
#[derive(Clone, Copy)]
pub struct H {
    pub name: &'static str,
    pub f: fn(),
    pub covers: &'static [&'static str],
    pub max_paths: usize,
    pub fuel: u64,
    pub thorough_only: bool,
}

pub const fn h(name: &'static str, f: fn()) -> H {
    H {
        name,
        f,
        covers: &[],
        max_paths: 60_000,
        fuel: 3_000_000,
        thorough_only: false,
    }
}

impl H {
    pub const fn covers(mut self, c: &'static [&'static str]) -> H {
        self.covers = c;
        self
    }
    pub const fn fuel(mut self, n: u64) -> H {
        self.fuel = n;
        self
    }
    pub const fn thorough(mut self) -> H {
        self.thorough_only = true;
        self
    }
}

/// `check!(cond, "what")`: the property assertion
#[macro_export]
macro_rules! check {
    ($c:expr, $($m:tt)+) => {{
        $crate::check_enter();
        let ok: bool = $c;
        $crate::check_leave();
        if !ok {
            panic!("PROPERTY VIOLATED: {}", format!($($m)+));
        }
    }};
}

pub fn bi<T: Into<BigInt>>(v: T) -> BigInt {
    v.into()
}

/// runs f and reports whether it panicked (for operations documented to panic)
pub fn panics<T>(f: impl FnOnce() -> T) -> bool {
    sym::panics_impl(|| {
        f();
    })
}
