//! Interval powers enclose every power of every member.
//! encodes: Pow<E> for DyadicFractionInterval and &DyadicFractionInterval (E = i32, u8, i64), DyadicFractionInterval::recip, set_one
//! outside: exponents outside -3..=5 (quick) / -6..=11 (thorough), except, for numerators -3 to 3 of widths 0, 2, 4, the listed ones between -16 and 33; log2_denom above 2 / 4; for exponents above 2 numerators outside -7..=7 / -12..=12 (unbounded for exponents 0, 1, 2)
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use num_traits::{Pow, Signed, ToPrimitive};
use verif_harness::spec::*;
use verif_harness::*;

fn q(quick: usize, th: usize) -> usize {
    if thorough() {
        th
    } else {
        quick
    }
}

fn check_pow(lo: BigInt, hi: BigInt, x: BigInt, ld: usize, e: i64) {
    let a = D::new(lo.clone(), hi.clone(), ld);
    let zero_in = !lo.is_positive() && !hi.is_negative();
    if e < 0 && zero_in {
        check!(panics(|| a.clone().pow(e)), "negative power of an interval around zero panics");
        return;
    }
    let r = a.clone().pow(e);
    check!(r.log2_denom() == ld, "pow keeps the denominator");
    check!(r.lower_bound_numer() <= r.upper_bound_numer(), "pow gives an interval");
    // l/2^ld <= (x/2^ld)^e <= u/2^ld
    let k = e.unsigned_abs() as usize;
    let mut p = bi(1);
    for _ in 0..k {
        p = p * &x;
    }
    let (l, u) = (r.lower_bound_numer(), r.upper_bound_numer());
    if e >= 0 {
        // l * 2^(ld e) <= x^e * 2^ld
        let s = p << ld;
        check!((l << (ld * k)) <= s, "power above the lower bound");
        check!((u << (ld * k)) >= s, "power below the upper bound");
    } else {
        // 2^(ld k) / x^k; multiply by |x^k|
        let num = pow2(ld * k + ld);
        let (num, den) = if p.is_negative() { (-num, -p) } else { (num, p) };
        check!(l * &den <= num, "power above the lower bound");
        check!(u * &den >= num, "power below the upper bound");
    }
    check!((&a).pow(e as i32).is_same(&r), "pow by reference, i32");
    if e >= 0 {
        check!(a.clone().pow(e as u8).is_same(&r), "pow with an unsigned exponent");
    }
}

fn pow() {
    let emin = -(q(3, 6) as i64);
    let emax = q(5, 11) as i64;
    let e = int("e", emin, emax).to_i64().unwrap();
    let ld = choose("ld", q(2, 4) + 1);
    let n = q(5, 10) as i64;
    let (lo, hi, x) = (int("lo", -n, n), int("hi", -n, n), int("x", -n, n));
    assume(lo <= x && x <= hi);
    // an endpoint or an interior member; powers are monotone between endpoints and zero
    assume(x == lo || x == hi || x == bi(0));
    if lo.is_negative() && hi.is_positive() && e % 2 != 0 {
        cover("odd power across zero");
    }
    check_pow(lo, hi, x, ld, e);
}

/// long exponents, on listed values
fn pow_long() {
    let e = [6i64, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 23, 31, 32, 33, -5, -6, -7, -16][choose("e", 19)];
    let ld = choose("ld", 3);
    let (lo, w) = (choose("lo", 7) as i64 - 3, choose("w", 3) as i64 * 2);
    let (lo, hi) = (bi(lo), bi(lo + w));
    let x = if choose("which", 2) == 0 { lo.clone() } else { hi.clone() };
    check_pow(lo, hi, x, ld, e);
}

fn pow_unbounded() {
    let e = choose("e", 3) as i64;
    let ld = precision("ld", q(3, 6), &[32, 64]);
    let (lo, hi) = (any("lo"), any("hi"));
    assume(lo <= hi);
    let which = choose("which", 2);
    let x = if which == 0 { lo.clone() } else { hi.clone() };
    let a = D::new(lo.clone(), hi.clone(), ld);
    if e == 0 {
        let r = a.pow(0u32);
        let o = pow2(ld);
        check!(*r.lower_bound_numer() == o && *r.upper_bound_numer() == o && r.log2_denom() == ld, "power zero is one");
    } else if e == 1 {
        check!(a.clone().pow(1u32).is_same(&a), "power one is the interval");
    } else {
        check!(a.clone().pow(2u32).is_same(&a.square()), "power two is the square");
    }
    let _ = x;
}

fn main() {
    main_(&[
        h("pow", pow).covers(&["odd power across zero"]),
        h("pow_long", pow_long),
        h("pow_unbounded", pow_unbounded),
    ])
}
