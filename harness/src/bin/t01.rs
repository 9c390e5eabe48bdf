//! Greatest common divisors, least common multiples and Bezout coefficients.
//! encodes: GCD::{gcd, lcm, gcd_lcm}, ExtendedGCD::{extended_gcd, extended_gcd_lcm} for BigInt, BigUint, Ratio<BigInt> and the primitive integer types
//! outside: big integers beyond -24 to 24 (thorough 60) except multiples of a common symbolic factor; ratios with numerators beyond -6 to 6 and denominators above 4; primitive types wider than 8 bits at listed values
use algebraics::traits::{ExtendedGCD, ExtendedGCDAndLCM, ExtendedGCDResult, GCDAndLCM, GCD};
use num_bigint::BigUint;
use num_traits::{One, Signed, Zero};
use std::convert::TryFrom;
use verif_harness::spec::*;
use verif_harness::*;

fn divides(d: &BigInt, v: &BigInt) -> bool {
    if d.is_zero() {
        v.is_zero()
    } else {
        (v % d).is_zero()
    }
}
fn bound() -> i64 {
    if thorough() {
        60
    } else {
        24
    }
}
fn bigint() {
    let n = bound();
    let (a, b) = (int("a", -n, n), int("b", -n, n));
    let GCDAndLCM { gcd, lcm } = a.gcd_lcm(&b);
    let ExtendedGCDAndLCM { gcd: g, x, y, lcm: l } = a.extended_gcd_lcm(&b);
    // a common divisor that is a combination of both is the greatest one
    check!(divides(&gcd, &a) && divides(&gcd, &b), "common divisor");
    check!(&x * &a + &y * &b == g, "Bezout");
    check!(g.abs() == gcd.abs() && l.abs() == lcm.abs(), "both forms agree");
    check!((&gcd * &lcm).abs() == (&a * &b).abs(), "gcd times lcm");
    check!(divides(&a, &lcm) && divides(&b, &lcm), "common multiple");
    check!(GCD::gcd(&a, &b) == gcd && GCD::lcm(&a, &b) == lcm, "single results");
    let ExtendedGCDResult { gcd: h, x, y } = ExtendedGCD::extended_gcd(&a, &b);
    check!(h.abs() == gcd.abs() && &x * &a + &y * &b == h, "extended_gcd");
    if let (Ok(u), Ok(v)) = (BigUint::try_from(a.clone()), BigUint::try_from(b.clone())) {
        let r = GCD::gcd_lcm(&u, &v);
        check!(BigInt::from(r.gcd.clone()) == gcd.abs() && BigInt::from(r.lcm.clone()) == lcm.abs(), "unsigned");
        check!(GCD::gcd(&u, &v) == r.gcd && GCD::lcm(&u, &v) == r.lcm, "unsigned single results");
    }
}
fn ratio() {
    let n = if thorough() { 10 } else { 6 };
    let d = if thorough() { 6 } else { 4 };
    let r = |s: &str, t: &str| {
        let p = bi(choose(s, 2 * n + 1) as i64 - n as i64);
        let q = bi(choose(t, d) as i64 + 1);
        Ratio::new(p, q)
    };
    let (a, b) = (r("an", "ad"), r("bn", "bd"));
    let GCDAndLCM { gcd, lcm } = a.gcd_lcm(&b);
    let ExtendedGCDAndLCM { gcd: g, x, y, lcm: l } = a.extended_gcd_lcm(&b);
    check!(&x * &a + &y * &b == g, "Bezout");
    check!(x.is_integer() && y.is_integer(), "integer coefficients");
    check!(g.abs() == gcd.abs() && l.abs() == lcm.abs(), "both forms agree");
    check!((&gcd * &lcm).abs() == (&a * &b).abs(), "gcd times lcm");
    if gcd.is_zero() {
        check!(a.is_zero() && b.is_zero(), "zero gcd");
    } else {
        check!((&a / &gcd).is_integer() && (&b / &gcd).is_integer(), "common divisor");
    }
    if lcm.is_zero() {
        check!(a.is_zero() || b.is_zero(), "zero lcm");
    } else {
        check!((&lcm / &a).is_integer() && (&lcm / &b).is_integer(), "common multiple");
    }
    check!(GCD::gcd(&a, &b) == gcd && GCD::lcm(&a, &b) == lcm, "single results");
    let e = ExtendedGCD::extended_gcd(&a, &b);
    check!(e.gcd.abs() == gcd.abs() && &e.x * &a + &e.y * &b == e.gcd, "extended_gcd");
}
/// rationals over machine integers
fn ratio_i64() {
    let v: [i64; 9] = [0, 1, -1, 6, -15, 35, 1 << 20, -1_000_003, 30030];
    let d: [i64; 4] = [1, 2, 15, 1001];
    let r = |s: &str, t: &str| Ratio::new(v[choose(s, 9)], d[choose(t, 4)]);
    let (a, b) = (r("an", "ad"), r("bn", "bd"));
    let GCDAndLCM { gcd, lcm } = a.gcd_lcm(&b);
    let e = a.extended_gcd_lcm(&b);
    check!(e.x * a + e.y * b == e.gcd, "Bezout");
    check!(e.gcd.abs() == gcd.abs() && e.lcm.abs() == lcm.abs(), "both forms agree");
    check!((gcd * lcm).abs() == (a * b).abs(), "gcd times lcm");
    check!(gcd.is_zero() || (a / gcd).is_integer() && (b / gcd).is_integer(), "common divisor");
    check!(lcm.is_zero() == (a.is_zero() || b.is_zero()), "zero lcm");
}
fn gcd_i128(a: i128, b: i128) -> i128 {
    if b == 0 {
        a
    } else {
        gcd_i128(b, a % b)
    }
}
fn primitive() {
    macro_rules! unsigned {
        ($t:ty) => {{
            let m = <$t>::MAX / 2;
            let w: [$t; 10] = [0, 1, 2, 6, 15, 84, 90, m, m - 1, 105];
            let (a, b) = (w[choose("a", 10)], w[choose("b", 10)]);
            let g = BigInt::from(gcd_i128(a as i128, b as i128));
            check!(BigInt::from(GCD::gcd(&a, &b)) == g, "gcd");
            let prod = BigInt::from(a) * BigInt::from(b);
            let l = if g.is_zero() { bi(0) } else { &prod / &g };
            if let Ok(want) = <$t>::try_from(l) {
                check!(GCD::lcm(&a, &b) == want, "lcm");
                let r = GCD::gcd_lcm(&a, &b);
                check!(BigInt::from(r.gcd) == g && r.lcm == want, "gcd_lcm");
            }
        }};
    }
    macro_rules! signed {
        ($t:ty) => {{
            let m = <$t>::MAX / 2;
            let w: [$t; 10] = [0, 1, -2, 6, -15, 84, -90, m, -(m - 1), 105];
            let (a, b) = (w[choose("a", 10)], w[choose("b", 10)]);
            let g = BigInt::from(gcd_i128(a as i128, b as i128)).abs();
            check!(BigInt::from(GCD::gcd(&a, &b)) == g, "gcd");
            let e = ExtendedGCD::extended_gcd(&a, &b);
            check!(BigInt::from(e.gcd).abs() == g, "extended gcd");
            check!(BigInt::from(e.x) * BigInt::from(a) + BigInt::from(e.y) * BigInt::from(b) == BigInt::from(e.gcd), "Bezout");
            let prod = (BigInt::from(a) * BigInt::from(b)).abs();
            let l = if g.is_zero() { bi(0) } else { &prod / &g };
            if let Ok(want) = <$t>::try_from(l) {
                check!(GCD::lcm(&a, &b) == want, "lcm");
                let r = GCD::gcd_lcm(&a, &b);
                check!(BigInt::from(r.gcd) == g && r.lcm == want, "gcd_lcm");
                let e = ExtendedGCD::extended_gcd_lcm(&a, &b);
                check!(BigInt::from(e.gcd).abs() == g && BigInt::from(e.lcm).abs() == BigInt::from(want), "extended_gcd_lcm");
                check!(BigInt::from(e.x) * BigInt::from(a) + BigInt::from(e.y) * BigInt::from(b) == BigInt::from(e.gcd), "Bezout");
            }
        }};
    }
    match choose("type", 12) {
        0 => unsigned!(u8),
        1 => unsigned!(u16),
        2 => unsigned!(u32),
        3 => unsigned!(u64),
        4 => unsigned!(u128),
        5 => unsigned!(usize),
        6 => signed!(i8),
        7 => signed!(i16),
        8 => signed!(i32),
        9 => signed!(i64),
        10 => signed!(i128),
        _ => signed!(isize),
    }
}
/// a common factor of any size
fn scaled() {
    let k = at_least("k", 1);
    let (p, q) = ([(1, 1), (0, 1), (1, 0), (-1, 0), (2, 3), (-4, 6), (5, -3), (7, 7)][choose("pq", 8)]);
    let g = bi([1, 1, 1, 1, 1, 2, 1, 7][choose("g", 8)]);
    assume(g == bi(gcd_i128(p, q).abs()));
    let (a, b) = (&k * bi(p), &k * bi(q));
    let r = a.gcd_lcm(&b);
    check!(r.gcd == &g * &k, "gcd of multiples");
    check!((r.lcm * &g).abs() == (&k * bi(p) * bi(q)).abs(), "lcm of multiples");
    check!(k.is_one() || k > bi(1), "domain");
}

fn main() {
    main_(&[
        h("bigint", bigint),
        h("ratio", ratio),
        h("ratio_i64", ratio_i64),
        h("primitive", primitive),
        h("scaled", scaled),
    ]);
}
