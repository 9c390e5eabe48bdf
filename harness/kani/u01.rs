//! kani-encodes: is_prime_u32 (bit-precise)
//! kani-outside: values above 4095 (bit-precise part)
pub mod k_prime {
    use crate::support::*;
    use algebraics::util::*;
    fn has_divisor(v: u32) -> bool {
        let mut d = 2;
        let mut r = false;
        while d < 64 {
            r |= v > d && v % d == 0;
            d += 1;
        }
        r
    }
    crate::proofs! {
        #[unwind(65)]
        fn is_prime() {
            let v: u32 = any();
            assume(v < 4096);
            assert!(is_prime_u32(v) == (v >= 2 && !has_divisor(v)), "is_prime_u32");
        }
    }
}
#[cfg(not(kani))]
pub const GROUPS: &[&[(&str, fn())]] = &[k_prime::ALL];
