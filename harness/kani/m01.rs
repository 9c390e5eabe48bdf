//! kani-encodes: ModularReduce for the primitive integer types up to 64 bits (modular_reduce, modular_add, modular_sub, modular_neg, modular_mul through ModularInteger), bit-precise
//! kani-outside: primitive types: reductions, sums, differences, negations: every value and every positive modulus; products: every modulus for 8 bits, the modulus MAX - 4 for wider types (64 bits: one factor 2^32); 128-bit types only through the other harnesses
macro_rules! t {
    ($m:ident, $t:ty, $w:ty, $add:ident, $sub:ident, $neg:ident, $new:ident) => {
        pub mod $m {
            use crate::support::*;
            use algebraics::mod_int::*;
            type M = ModularInteger<$t, $t>;
            #[allow(unused_comparisons)]
            fn red() -> ($t, $t, $t) {
                let (a, b, m): ($t, $t, $t) = (any(), any(), any());
                assume(m > 0 && a >= 0 && b >= 0 && a < m && b < m);
                (a, b, m)
            }
            crate::proofs! {
                #[solver(z3)]
                fn $new() {
                    let (a, m): ($t, $t) = (any(), any());
                    assume(m > 0);
                    let x = M::new(a, m);
                    assert!(*x.value() == a.rem_euclid(m) && *x.modulus() == m, "new reduces");
                }
                fn $add() {
                    let (a, b, m) = red();
                    let r = a.modular_add_ref_ref(&b, m);
                    let s = a as $w + b as $w;
                    assert!(r as $w == if s >= m as $w { s - m as $w } else { s }, "sum");
                }
                fn $sub() {
                    let (a, b, m) = red();
                    let r = a.modular_sub_ref_ref(&b, m);
                    assert!(r == if a >= b { a - b } else { m - (b - a) }, "difference");
                }
                fn $neg() {
                    let (a, _, m) = red();
                    let r = a.modular_neg_ref(m);
                    assert!(r == if a == 0 { 0 } else { m - a }, "negation");
                }
            }
        }
    };
}
t!(k_u8, u8, u16, add_u8, sub_u8, neg_u8, new_u8);
t!(k_i8, i8, i16, add_i8, sub_i8, neg_i8, new_i8);
t!(k_u16, u16, u32, add_u16, sub_u16, neg_u16, new_u16);
t!(k_i16, i16, i32, add_i16, sub_i16, neg_i16, new_i16);
t!(k_u32, u32, u64, add_u32, sub_u32, neg_u32, new_u32);
t!(k_i32, i32, i64, add_i32, sub_i32, neg_i32, new_i32);
t!(k_u64, u64, u128, add_u64, sub_u64, neg_u64, new_u64);
t!(k_i64, i64, i128, add_i64, sub_i64, neg_i64, new_i64);
t!(k_usize, usize, u128, add_usize, sub_usize, neg_usize, new_usize);
t!(k_isize, isize, i128, add_isize, sub_isize, neg_isize, new_isize);

pub mod k_mul {
    use crate::support::*;
    use algebraics::mod_int::*;
    macro_rules! body {
        ($t:ty, $w:ty, $m:expr, $b:expr) => {{
            let (a, b, m): ($t, $t, $t) = (any(), $b, $m);
            #[allow(unused_comparisons)]
            assume(m > 0 && a >= 0 && b >= 0 && a < m && b < m);
            let r = a.modular_mul_ref_ref(&b, m);
            assert!(r as $w == (a as $w * b as $w) % m as $w, "product");
        }};
    }
    crate::proofs! {
        #[solver(z3)]
        fn mul_u8() { body!(u8, u16, any(), any()) }
        fn mul_i8() { body!(i8, i16, any(), any()) }
        #[solver(z3)]
        fn mul_u16() { body!(u16, u32, u16::MAX - 4, any()) }
        #[solver(z3)]
        fn mul_i16() { body!(i16, i32, i16::MAX - 4, any()) }
        #[solver(z3)]
        fn mul_u32() { body!(u32, u64, u32::MAX - 4, any()) }
        #[solver(z3)]
        fn mul_i32() { body!(i32, i64, i32::MAX - 4, any()) }
        #[solver(z3)]
        fn mul_i64() { body!(i64, i128, i64::MAX - 4, 1 << 32) }
        #[solver(z3)]
        fn mul_isize() { body!(isize, i128, isize::MAX - 4, 1 << 32) }
        #[solver(z3)]
        fn mul_u64() { body!(u64, u128, u64::MAX - 4, 1 << 32) }
        #[solver(z3)]
        fn mul_usize() { body!(usize, u128, usize::MAX - 4, 1 << 32) }
    }
}
#[cfg(not(kani))]
pub const GROUPS: &[&[(&str, fn())]] = &[
    k_u8::ALL, k_i8::ALL, k_u16::ALL, k_i16::ALL, k_u32::ALL, k_i32::ALL, k_u64::ALL, k_i64::ALL, k_usize::ALL, k_isize::ALL, k_mul::ALL,
];
