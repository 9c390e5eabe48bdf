//! Rational powers of real algebraic numbers.
//! crate: full
//! encodes: RealAlgebraicNumber::{checked_pow, checked_into_pow}, checked_pow_impl, PowRootSelector, Pow, IntoRationalExponent for integers, ratios, tuples and references; DyadicFractionInterval::{log, exp, mul by ratio}, resultants, factoring, Sturm sequences
//! outside: bases other than the numbers with a quadratic minimal polynomial of coefficients up to 3 (thorough 6, leading 4) and 26 listed numbers (degree up to 4) with isolating intervals up to 1 bit and 1 unit further out than the tightest (thorough: 2 bits, 2 units); exponents other than n/d with |n| <= 3, d <= 3 (degree of the base times d at most 6; base degree times |n| at most 8)
#[path = "../ran.rs"]
#[allow(dead_code)]
mod ran;
use num_traits::Pow;
use ran::*;
use verif_harness::spec::*;
use verif_harness::*;

/// e^n for n >= 0
fn powe(e: &E, n: usize) -> E {
    let mut r = E::of_ratio(&bi(1), &bi(1));
    for _ in 0..n {
        r = r.mul(e);
    }
    r
}
/// the d-th root of a positive enclosure
fn root(e: &E, d: usize) -> E {
    let at = |x: &BigInt| {
        let mut r = x.clone();
        for _ in 1..d {
            r = r * x;
        }
        r
    };
    let fl = |x: &BigInt| {
        let t: BigInt = x << (BITS * (d - 1));
        let mut lo = bi(0);
        let mut hi = (x + bi(2)).max(pow2(BITS + 1));
        while &hi - &lo > bi(1) {
            let mid: BigInt = (&lo + &hi) >> 1;
            if at(&mid) <= t {
                lo = mid
            } else {
                hi = mid
            }
        }
        lo
    };
    let (a, b) = (fl(&e.lo), fl(&e.hi));
    // the exact root of an exact value stays exact
    let exact = e.lo == e.hi && at(&a) == &e.lo << (BITS * (d - 1));
    E { lo: a, hi: if exact { b } else { b + bi(1) } }
}
fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}
/// the expected enclosure of a^(n/d), None where there is no real power
fn expected(a: &N, n: i64, d: i64) -> Option<E> {
    let e = a.e();
    let s = e.sign();
    if s == 0 {
        return if n > 0 { Some(e) } else { None };
    }
    let g = gcd(n, d);
    let (n, d) = if g == 0 { (0, 1) } else { (n / g, d / g) };
    if n == 0 {
        return Some(E::of_ratio(&bi(1), &bi(1)));
    }
    if s < 0 && d != 1 {
        return None;
    }
    let b = if n < 0 { e.recip() } else { e };
    let p = powe(&b, n.abs() as usize);
    Some(if d == 1 { p } else { root(&p, d as usize) })
}
fn spec(a: &N, x: &R, n: i64, d: i64, r: Option<R>, msg: &str) {
    let want = expected(a, n, d);
    match (want, r) {
        (None, r) => check!(r.is_none(), "power outside the domain is refused"),
        (Some(e), r) => {
            let r = r.expect(msg);
            check!(is_value(&r, &e, a.deg() * d as usize), "power");
            if a.deg() > 1 && r.is_rational() && n != 0 {
                cover("irrational base with a rational power");
            }
            if a.deg() == 1 && !r.is_rational() {
                cover("rational base with an irrational power");
            }
        }
    }
    let _ = x;
}
fn exponent(a: &N) -> (i64, i64) {
    let d = choose("den", 3) as i64 + 1;
    let n = choose("num", 7) as i64 - 3;
    assume(a.deg() as i64 * d <= 6 && a.deg() as i64 * n.abs() <= 8);
    (n, d)
}
fn pow() {
    let a = NUMS[choose("a", NUMS.len())].clone();
    let (n, d) = exponent(&a);
    let x = if thorough() { a.each_interval("x", 2, 2) } else { a.each_interval("x", 1, 1) };
    spec(&a, &x, n, d, x.checked_pow((n, d)), "checked_pow");
}
fn forms() {
    let few = [0usize, 1, 2, 3, 4, 5, 6, 17];
    let a = NUMS[few[choose("a", few.len())]].clone();
    let (n, d) = exponent(&a);
    let x = a.real();
    spec(&a, &x, n, d, x.clone().checked_into_pow(Ratio::new(bi(n), bi(d))), "checked_into_pow");
    spec(&a, &x, n, d, x.checked_pow(&Ratio::new(n, d)), "ratio exponent by reference");
    match expected(&a, n, d) {
        None => {
            check!(panics(|| {
                let _ = (&x).pow((n, d));
            }), "Pow outside the domain panics");
            check!(panics(|| {
                let _ = x.clone().pow((n, d));
            }), "Pow by value outside the domain panics");
        }
        Some(_) => {
            spec(&a, &x, n, d, Some((&x).pow((n, d))), "Pow");
            spec(&a, &x, n, d, Some(x.clone().pow(Ratio::new(n as i32, d as i32))), "Pow by value");
        }
    }
    if d == 1 {
        spec(&a, &x, n, 1, x.checked_pow(n), "integer exponent");
        spec(&a, &x, n, 1, x.checked_pow(&bi(n)), "big integer exponent");
        spec(&a, &x, n, 1, x.checked_pow(n as i8), "small integer exponent");
        if n >= 0 {
            spec(&a, &x, n, 1, x.checked_pow(n as u32), "unsigned exponent");
            spec(&a, &x, n, 1, x.checked_pow(num_bigint::BigUint::from(n as u64)), "big unsigned exponent");
        }
    }
}
/// exponents of any size for the numbers whose powers stay small
fn huge() {
    let a = NUMS[choose("a", 3)].clone();
    let x = a.real();
    let n = any("n");
    let d = bi(choose("d", 3) as i64 + 1);
    let e = Ratio::new(n.clone(), d.clone());
    let r = x.checked_pow(e);
    let whole = (&n % &d).is_zero_();
    match a.e().sign() {
        0 => {
            check!(r.is_some() == (n > bi(0)), "zero to a power");
            if let Some(r) = r {
                check!(r.to_integer() == Some(bi(0)), "zero to a power is zero");
            }
        }
        1 => check!(r.unwrap().to_integer() == Some(bi(1)), "one to any power is one"),
        _ => {
            check!(r.is_some() == whole, "minus one has integer powers only");
            if let Some(r) = r {
                let even = (&(&n / &d) % bi(2)).is_zero_();
                check!(r.to_integer() == Some(if even { bi(1) } else { bi(-1) }), "power of minus one");
            }
        }
    }
}
trait Z {
    fn is_zero_(&self) -> bool;
}
impl Z for BigInt {
    fn is_zero_(&self) -> bool {
        *self == bi(0)
    }
}
/// small quadratic numbers
fn small_numbers() {
    let a = any_number("a", 2, if thorough() { 4 } else { 3 }, if thorough() { 6 } else { 3 });
    let (n, d) = exponent(&a);
    assume(thorough() || n != 1);
    let x = a.real();
    spec(&a, &x, n, d, x.checked_pow((n, d)), "checked_pow");
}

fn main() {
    main_(&[
        h("pow", pow).covers(&["irrational base with a rational power", "rational base with an irrational power"]),
        h("forms", forms),
        h("huge", huge),
        h("small_numbers", small_numbers),
    ]);
}
