//! Sign, rounding and binary logarithm of real algebraic numbers.
//! crate: full
//! encodes: RealAlgebraicNumber::{cmp_with_zero, is_positive, is_negative, signum, abs, to_integer_floor, into_integer_floor, floor, into_floor, to_integer_ceil, into_integer_ceil, ceil, into_ceil, to_integer_trunc, into_integer_trunc, trunc, into_trunc, fract, into_fract, checked_floor_log2, into_checked_floor_log2, checked_ceil_log2, into_checked_ceil_log2, to_integer_log2, is_rational, is_integer, to_rational, to_integer, degree}, remove_zero_from_interval, IntervalShrinker::shrink, sign_changes_at, DyadicFractionInterval::{floor, floor_log2, ceil_log2}
//! outside: numbers other than the irrational ones with a quadratic minimal polynomial of coefficients up to 6 (leading 4; thorough 12, 7) or a cubic of coefficients up to 3 (leading 2; thorough 4, 3), square roots of integers up to 440 (thorough 3720), and 26 listed ones (degree up to 4), the latter with any isolating interval of precision up to 2 (quick) / 5 (thorough) bits whose bounds are up to 6 / 20 units further out than the tightest (rounding: 1 bit, 3 units / 3 bits, 8 units; fract: 2 bits, 6 units / 4 bits, 12 units)
#[path = "../ran.rs"]
#[allow(dead_code)]
mod ran;
use num_traits::{Signed, Zero};
use ran::*;
use std::cmp::Ordering;
use verif_harness::spec::*;
use verif_harness::*;

fn num() -> (N, R, E) {
    let a = NUMS[choose("a", NUMS.len())].clone();
    let e = a.e();
    let r = if thorough() { a.any_interval("i", 5, 20) } else { a.any_interval("i", 2, 6) };
    (a, r, e)
}
fn is_int(r: &R, v: &BigInt) -> bool {
    r.to_integer() == Some(v.clone()) && is_value(r, &E::of_ratio(v, &bi(1)), 1)
}
fn sign() {
    let (a, x, e) = num();
    let s = e.sign();
    let o = [Ordering::Less, Ordering::Equal, Ordering::Greater][(s + 1) as usize];
    check!(x.cmp_with_zero() == o, "cmp_with_zero");
    check!(x.is_positive() == (s > 0) && x.is_negative() == (s < 0) && x.is_zero() == (s == 0), "sign predicates");
    check!(is_int(&x.signum(), &bi(s as i64)), "signum");
    check!(x.degree() == a.deg() && x.is_rational() == (a.deg() == 1), "degree");
    let ab = x.abs();
    check!(ab.minimal_polynomial().degree() == Some(a.deg()) && !ab.is_negative(), "abs is not negative");
    check!(is_value(&ab, &if s < 0 { e.neg() } else { e.clone() }, a.deg()), "abs");
}
fn rounding() {
    let a = NUMS[choose("a", NUMS.len())].clone();
    let e = a.e();
    let x = if thorough() { a.any_interval("i", 3, 8) } else { a.any_interval("i", 1, 3) };
    let (f, c) = if a.deg() == 1 {
        let (n, d) = (bi(-a.poly[0]), bi(a.poly[1]));
        (num_integer::Integer::div_floor(&n, &d), -num_integer::Integer::div_floor(&-n, &d))
    } else {
        (e.floor(), e.ceil())
    };
    let t = if e.sign() < 0 { c.clone() } else { f.clone() };
    match choose("op", 3) {
        0 => {
            check!(x.to_integer_floor() == f, "to_integer_floor");
            check!(is_int(&x.floor(), &f) && is_int(&x.clone().into_floor(), &f), "floor");
            check!(x.into_integer_floor() == f, "into_integer_floor");
        }
        1 => {
            check!(x.to_integer_ceil() == c, "to_integer_ceil");
            check!(is_int(&x.ceil(), &c) && is_int(&x.clone().into_ceil(), &c), "ceil");
            check!(x.into_integer_ceil() == c, "into_integer_ceil");
        }
        _ => {
            check!(x.to_integer_trunc() == t, "to_integer_trunc");
            check!(is_int(&x.trunc(), &t) && is_int(&x.clone().into_trunc(), &t), "trunc");
            check!(x.into_integer_trunc() == t, "into_integer_trunc");
        }
    }
}
fn fract() {
    let a = NUMS[choose("a", NUMS.len())].clone();
    let e = a.e();
    let x = if thorough() { a.each_interval("i", 4, 12) } else { a.each_interval("i", 2, 6) };
    let f = if a.deg() == 1 { num_integer::Integer::div_floor(&bi(-a.poly[0]), &bi(a.poly[1])) } else { e.floor() };
    let g = e.sub(&E::of_ratio(&f, &bi(1)));
    check!(is_value(&x.fract(), &g, a.deg()), "fract");
    check!(is_value(&x.into_fract(), &g, a.deg()), "into_fract");
}
fn log2() {
    let (a, x, e) = num();
    let (fl, ce) = if e.sign() <= 0 {
        (None, None)
    } else {
        let b = |v: &BigInt| v.bits() as i64 - 1 - BITS as i64;
        let f = b(&e.lo);
        if a.deg() > 1 || a.poly[1] != 1 {
            assert!(f == b(&e.hi));
            (Some(f), Some(f + 1))
        } else {
            (Some(f), Some(f))
        }
    };
    check!(x.checked_floor_log2() == fl && x.clone().into_checked_floor_log2() == fl, "floor_log2");
    check!(x.checked_ceil_log2() == ce && x.clone().into_checked_ceil_log2() == ce, "ceil_log2");
    check!(x.to_integer_log2() == if fl == ce { fl } else { None }, "to_integer_log2");
}

/// every quadratic and cubic number with small coefficients
fn small_numbers() {
    let a = match choose("deg", 2) {
        0 => any_number("a", 2, if thorough() { 7 } else { 4 }, if thorough() { 12 } else { 6 }),
        _ => any_number("a", 3, if thorough() { 3 } else { 2 }, if thorough() { 4 } else { 3 }),
    };
    let (x, e) = (a.real(), a.e());
    let s = e.sign();
    check!(x.is_positive() == (s > 0) && x.is_negative() == (s < 0) && !x.is_zero(), "sign");
    check!(is_value(&x.abs(), &if s < 0 { e.neg() } else { e.clone() }, a.deg()), "abs");
    let (f, c) = (e.floor(), e.ceil());
    check!(x.to_integer_floor() == f && x.to_integer_ceil() == c, "floor and ceil");
    check!(x.to_integer_trunc() == if s < 0 { c } else { f.clone() }, "trunc");
    check!(is_value(&x.fract(), &e.sub(&E::of_ratio(&f, &bi(1))), a.deg()), "fract");
    let l = if s > 0 { Some(e.lo.bits() as i64 - 1 - BITS as i64) } else { None };
    check!(x.checked_floor_log2() == l && x.checked_ceil_log2() == l.map(|l| l + 1), "binary logarithm");
    check!(x.to_integer_log2().is_none(), "no exact logarithm");
}
/// the square roots of every integer m^2 + t that is not a square, and their negations
fn square_roots() {
    let m = int("m", 1, if thorough() { 60 } else { 20 });
    let t = at_least("t", 1);
    assume(t <= &m * bi(2));
    let s = &m * &m + t;
    let neg = choose("neg", 2) == 1;
    let p = ZP::from(vec![-s, bi(0), bi(1)]);
    use algebraics::interval_arithmetic::DyadicFractionInterval as D;
    let wide = [bi(0), m.clone()][choose("wide", 2)].clone();
    let (lo, hi) = if neg { (-&m - bi(1), -wide) } else { (wide, &m + bi(1)) };
    let x = R::new_unchecked(p, D::new(lo, hi, 0));
    check!(x.is_negative() == neg && x.is_positive() != neg && !x.is_zero(), "sign of a square root");
    let (f, c) = if neg { (-&m - bi(1), -&m) } else { (m.clone(), &m + bi(1)) };
    match choose("op", 3) {
        0 => check!(x.to_integer_floor() == f, "floor of a square root"),
        1 => check!(x.to_integer_ceil() == c, "ceil of a square root"),
        _ => check!(x.to_integer_trunc() == if neg { c } else { f }, "trunc of a square root"),
    }
}

fn main() {
    main_(&[
        h("sign", sign),
        h("rounding", rounding),
        h("fract", fract),
        h("log2", log2),
        h("small_numbers", small_numbers),
        h("square_roots", square_roots),
    ]);
}
