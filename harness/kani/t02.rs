//! kani-encodes: FloorLog2, CeilLog2, TrailingZeros, IntegerBits for all twelve primitive integer types; ExactDiv for the types up to 64 bits (bit-precise)
//! kani-outside: primitive types: every value; exact division of usize, isize and 128-bit types only through the other harnesses
macro_rules! t {
    ($m:ident, $t:ty, $log:ident, $tz:ident) => {
        pub mod $m {
            use crate::support::*;
            use algebraics::traits::*;
            const BITS: usize = std::mem::size_of::<$t>() * 8;
            crate::proofs! {
                fn $log() {
                    let v: $t = any();
                    let (f, c) = (FloorLog2::floor_log2(&v), CeilLog2::ceil_log2(&v));
                    #[allow(unused_comparisons)]
                    if v <= 0 {
                        assert!(f.is_none() && c.is_none(), "no logarithm at or below zero");
                    } else {
                        let (f, c) = (f.unwrap(), c.unwrap());
                        assert!(f < BITS && v >> f == 1, "floor_log2");
                        assert!(c == f + if v == (1 as $t) << f { 0 } else { 1 }, "ceil_log2");
                    }
                    assert!(<$t as IntegerBits>::BITS == BITS && v.type_bits() == BITS, "bits");
                }
                fn $tz() {
                    let v: $t = any();
                    match TrailingZeros::trailing_zeros(&v) {
                        None => assert!(v == 0, "trailing zeros"),
                        Some(k) => assert!(k < BITS && (v >> k) & 1 == 1 && (v >> k) << k == v, "trailing zeros"),
                    }
                }
            }
        }
    };
}
t!(k_u8, u8, log_u8, tz_u8);
t!(k_i8, i8, log_i8, tz_i8);
t!(k_u16, u16, log_u16, tz_u16);
t!(k_i16, i16, log_i16, tz_i16);
t!(k_u32, u32, log_u32, tz_u32);
t!(k_i32, i32, log_i32, tz_i32);
t!(k_u64, u64, log_u64, tz_u64);
t!(k_i64, i64, log_i64, tz_i64);
t!(k_usize, usize, log_usize, tz_usize);
t!(k_isize, isize, log_isize, tz_isize);
t!(k_u128, u128, log_u128, tz_u128);
t!(k_i128, i128, log_i128, tz_i128);

pub mod k_div {
    use crate::support::*;
    use algebraics::traits::*;
    macro_rules! body {
        ($t:ty) => {{
            let (a, b): ($t, $t) = (any(), any());
            let want = match a.checked_rem(b) {
                Some(0) => a.checked_div(b),
                _ => None,
            };
            assert!((&a).checked_exact_div(&b) == want, "exact division");
            let mut c = a;
            assert!(c.checked_exact_div_assign(b).is_ok() == want.is_some(), "assigning form");
            assert!(c == match want { Some(q) => q, None => a }, "assigned value");
        }};
    }
    crate::proofs! {
        #[solver(z3)]
        fn div_u8() { body!(u8) }
        #[solver(z3)]
        fn div_i8() { body!(i8) }
        #[solver(z3)]
        fn div_u16() { body!(u16) }
        #[solver(z3)]
        fn div_i16() { body!(i16) }
        #[solver(z3)]
        fn div_u32() { body!(u32) }
        #[solver(z3)]
        fn div_i32() { body!(i32) }
        #[solver(z3)]
        fn div_u64() { body!(u64) }
        #[solver(z3)]
        fn div_i64() { body!(i64) }
    }
}
#[cfg(not(kani))]
pub const GROUPS: &[&[(&str, fn())]] = &[
    k_u8::ALL, k_i8::ALL, k_u16::ALL, k_i16::ALL, k_u32::ALL, k_i32::ALL, k_u64::ALL, k_i64::ALL, k_usize::ALL, k_isize::ALL, k_u128::ALL, k_i128::ALL, k_div::ALL,
];
