//! `any` and `assume` for bit-precise harnesses: solver variables under Kani, recorded
//! bytes in the native replay
#[cfg(kani)]
pub fn any<T: kani::Arbitrary>() -> T {
    kani::any()
}
#[cfg(kani)]
pub fn assume(b: bool) {
    kani::assume(b)
}

#[cfg(not(kani))]
mod native {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local!(pub static VALS: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new()));
    pub trait Bytes {
        fn of(b: &[u8]) -> Self;
    }
    macro_rules! b {
        ($($t:ty),*) => {$(impl Bytes for $t {
            fn of(b: &[u8]) -> Self {
                let mut a = [0u8; std::mem::size_of::<$t>()];
                a.copy_from_slice(b);
                <$t>::from_le_bytes(a)
            }
        })*};
    }
    b!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    impl Bytes for bool {
        fn of(b: &[u8]) -> Self {
            b[0] != 0
        }
    }
    pub fn any<T: Bytes>() -> T {
        VALS.with(|v| T::of(&v.borrow_mut().pop_front().unwrap_or_else(|| std::process::exit(3))))
    }
    pub fn assume(b: bool) {
        if !b {
            std::process::exit(3);
        }
    }
}
#[cfg(not(kani))]
pub use native::*;

#[macro_export]
macro_rules! proofs {
    ($($(#[unwind($u:expr)])? $(#[solver($s:ident)])? fn $name:ident() $body:block)*) => {
        $(
            #[cfg_attr(kani, kani::proof)]
            $(#[cfg_attr(kani, kani::unwind($u))])?
            $(#[cfg_attr(kani, kani::solver($s))])?
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const ALL: &[(&str, fn())] = &[$((stringify!($name), $name as fn())),*];
    };
}

/// replay HARNESS FILE: one line of decimal bytes per value
#[cfg(not(kani))]
pub fn replay_main(groups: &[&[(&str, fn())]]) {
    let a: Vec<String> = std::env::args().collect();
    let vals = std::fs::read_to_string(&a[2])
        .unwrap()
        .lines()
        .map(|l| l.split_whitespace().map(|b| b.parse().unwrap()).collect())
        .collect();
    VALS.with(|v| *v.borrow_mut() = vals);
    for g in groups {
        for (n, f) in g.iter() {
            if *n == a[1] {
                f();
                return;
            }
        }
    }
    std::process::exit(4);
}
