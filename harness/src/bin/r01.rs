//! Rational numbers as real algebraic numbers: conversions, rounding and exact arithmetic.
//! crate: full
//! encodes: From<T>, From<Ratio<T>> for RealAlgebraicNumber (BigInt, BigUint and all primitive integers), RealAlgebraicNumber::{to_rational, to_integer, is_rational, is_integer, degree, minimal_polynomial, interval, cmp_with_zero, floor/ceil/trunc/fract and their into_, to_integer_, into_integer_ forms, checked_recip, recip, to_integer_log2, checked_pow}, Zero, One, negative_one, set_negative_one, is_negative_one, Neg, Add, Sub, Mul, Div, Rem, Signed, PartialEq, Ord on rational values
//! outside: denominators above 4 (quick) / 12 (thorough) with any numerator; products and quotients: one numerator outside -6..6; powers: exponents outside -3..3 (numerators -9..9); binary logarithms: more than 70 bits; primitive conversions: the least and greatest values and three in between
#[path = "../ran.rs"]
#[allow(dead_code)]
mod ran;
use algebraics::traits::ExactDiv;
use num_traits::{One, Signed, Zero};
use ran::*;
use verif_harness::spec::*;
use verif_harness::*;

/// r is the number n / d, well-formed and in lowest terms
fn is_ratio(r: &R, n: &BigInt, d: &BigInt) -> bool {
    let p = r.minimal_polynomial();
    let iv = r.interval();
    let (c0, c1) = (p.coefficient(0), p.coefficient(1));
    let (lo, hi, k) = (iv.lower_bound_numer(), iv.upper_bound_numer(), iv.log2_denom());
    p.degree() == Some(1)
        && c1.is_positive()
        && num_integer::Integer::gcd(&c0, &c1).is_one()
        && &-&c0 * d == n * &c1
        && lo * d <= n << k
        && n << k <= hi * d
}
fn is_int(r: &R, n: &BigInt) -> bool {
    is_ratio(r, n, &bi(1)) && r.is_integer() && r.to_integer() == Some(n.clone())
}
fn max_den() -> usize {
    if thorough() {
        12
    } else {
        4
    }
}

fn convert() {
    let (n, d, q) = any_ratio("q", max_den());
    let x = R::from(q.clone());
    check!(is_ratio(&x, &n, &d), "from ratio");
    check!(x.is_rational() && x.degree() == 1, "is rational");
    let t = x.to_rational().unwrap();
    check!(canonical(&t) && t == q, "to_rational");
    let whole = (&n % &d).is_zero();
    check!(x.is_integer() == whole, "is_integer");
    check!(x.to_integer() == if whole { Some(&n / &d) } else { None }, "to_integer");
    check!(is_int(&R::from(n.clone()), &n), "from integer");
    check!(x.is_zero() == n.is_zero() && x.is_one() == (n == d) && x.is_negative_one() == (n == -&d), "zero, one, negative one");
    let data = x.clone().into_data();
    check!(&data.minimal_polynomial == x.minimal_polynomial() && data.interval.is_same(x.interval()) && &data == x.data(), "data");
    let mut m = x.clone();
    m.set_negative_one();
    check!(is_int(&m, &bi(-1)) && is_int(&R::negative_one(), &bi(-1)), "negative one");
    m.set_zero();
    check!(is_int(&m, &bi(0)) && is_int(&R::zero(), &bi(0)), "zero");
    m.set_one();
    check!(is_int(&m, &bi(1)) && is_int(&R::one(), &bi(1)), "one");
    let u = any_uint("u");
    check!(is_int(&R::from(u.clone()), &BigInt::from(u.clone())), "from BigUint");
    let half = R::from(Ratio::new(u.clone(), num_bigint::BigUint::from(2u8)));
    check!(is_ratio(&half, &BigInt::from(u), &bi(2)), "from ratio of BigUint");
}
fn primitives() {
    macro_rules! t {
        ($t:ty) => {{
            let v: $t = [<$t>::MIN, <$t>::MAX, <$t>::MAX / 2, 0, 7][choose(stringify!($t), 5)];
            check!(is_int(&R::from(v), &BigInt::from(v)), "from primitive integer");
            let q = R::from(Ratio::new(v, 7));
            check!(is_ratio(&q, &BigInt::from(v), &bi(7)), "from ratio of primitive integers");
        }};
    }
    match choose("type", 12) {
        0 => t!(u8),
        1 => t!(u16),
        2 => t!(u32),
        3 => t!(u64),
        4 => t!(u128),
        5 => t!(usize),
        6 => t!(i8),
        7 => t!(i16),
        8 => t!(i32),
        9 => t!(i64),
        10 => t!(i128),
        _ => t!(isize),
    }
}
fn rounding() {
    let (n, d, q) = any_ratio("q", max_den());
    let x = R::from(q);
    let f = num_integer::Integer::div_floor(&n, &d);
    let c = -num_integer::Integer::div_floor(&-&n, &d);
    let t = &n / &d;
    check!(x.to_integer_floor() == f && x.clone().into_integer_floor() == f, "to_integer_floor");
    check!(is_int(&x.floor(), &f) && is_int(&x.clone().into_floor(), &f), "floor");
    check!(x.to_integer_ceil() == c && x.clone().into_integer_ceil() == c, "to_integer_ceil");
    check!(is_int(&x.ceil(), &c) && is_int(&x.clone().into_ceil(), &c), "ceil");
    check!(x.to_integer_trunc() == t && x.clone().into_integer_trunc() == t, "to_integer_trunc");
    check!(is_int(&x.trunc(), &t) && is_int(&x.clone().into_trunc(), &t), "trunc");
    let g = &n - &f * &d;
    check!(is_ratio(&x.fract(), &g, &d) && is_ratio(&x.clone().into_fract(), &g, &d), "fract");
    let s = if n.is_zero() { 0 } else if n.is_positive() { 1 } else { -1 };
    check!(x.cmp_with_zero() == s.cmp(&0), "cmp_with_zero");
    check!(x.is_positive() == (s > 0) && x.is_negative() == (s < 0), "sign");
    check!(is_int(&x.signum(), &bi(s)), "signum");
    check!(is_ratio(&x.abs(), &n.abs(), &d), "abs");
    check!(is_ratio(&-&x, &-&n, &d) && is_ratio(&-x.clone(), &-&n, &d), "negation");
    let r = x.checked_recip();
    if s == 0 {
        check!(r.is_none(), "zero has no reciprocal");
    } else {
        let (n, d) = if s < 0 { (-n, -d) } else { (n, d) };
        check!(is_ratio(&r.unwrap(), &d, &n) && is_ratio(&x.recip(), &d, &n), "reciprocal");
    }
}
fn sums() {
    let (a, b, p) = any_ratio("p", 3);
    let (c, d, q) = any_ratio("q", if thorough() { 6 } else { 3 });
    let (x, y) = (R::from(p), R::from(q));
    let den = &b * &d;
    let (l, r) = (&a * &d, &c * &b);
    check!(is_ratio(&(&x + &y), &(&l + &r), &den), "sum");
    let diff = &l - &r;
    check!(is_ratio(&(&x - &y), &diff, &den), "difference");
    check!((x == y) == diff.is_zero() && x.cmp(&y) == l.cmp(&r) && x.partial_cmp(&y) == Some(l.cmp(&r)), "comparison");
    check!((x < y) == (l < r) && (x >= y) == (l >= r), "order");
    let m = x.abs_sub(&y);
    if diff.is_positive() {
        check!(is_ratio(&m, &diff, &den), "abs_sub");
    } else {
        check!(is_int(&m, &bi(0)), "abs_sub is zero");
    }
}
/// one numerator any, the other small
fn products() {
    let (a, b, p) = any_ratio("p", 3);
    let c = bi(choose("c", 13) as i64 - 6);
    let d = bi(choose("d", 3) as i64 + 1);
    let q = Ratio::new(c.clone(), d.clone());
    let (x, y) = (R::from(p), R::from(q));
    let prod = if choose("swap", 2) == 0 { &x * &y } else { &y * &x };
    check!(is_ratio(&prod, &(&a * &c), &(&b * &d)), "product");
    let quot = (&x).checked_exact_div(&y);
    if c.is_zero() {
        check!(quot.is_none(), "division by zero is refused");
        return;
    }
    let s = if c.is_negative() { bi(-1) } else { bi(1) };
    let (nn, dd) = (&a * &d * &s, &b * c.abs());
    check!(is_ratio(&quot.unwrap(), &nn, &dd), "quotient");
    let t = &nn / &dd;
    // x - trunc(x / y) * y
    check!(is_ratio(&(&x % &y), &(&a * &d - t * &c * &b), &(&b * &d)), "remainder");
}
fn powers() {
    let n = choose("n", 19) as i64 - 9;
    let d = choose("d", 4) as i64 + 1;
    let e = choose("e", 7) as i64 - 3;
    let x = R::from(Ratio::new(bi(n), bi(d)));
    let r = x.checked_pow(e);
    if n == 0 && e <= 0 {
        check!(r.is_none(), "zero to a power not above zero is refused");
        return;
    }
    let (mut a, mut b) = (bi(1), bi(1));
    for _ in 0..e.abs() {
        if e > 0 {
            a = a * bi(n);
            b = b * bi(d);
        } else {
            a = a * bi(d);
            b = b * bi(n);
        }
    }
    if b.is_negative() {
        a = -a;
        b = -b;
    }
    check!(is_ratio(&r.unwrap(), &a, &b), "integer power");
    check!(is_ratio(&x.clone().checked_into_pow(e).unwrap(), &a, &b), "checked_into_pow");
    if e == -1 {
        check!(is_ratio(&x.recip(), &a, &b), "reciprocal");
    }
}
fn log2() {
    // a numerator of exactly `bits` bits
    let bits = [1usize, 2, 3, 4, 8, 33, 64, 70][choose("bits", 8)];
    let n = any("n");
    assume(n >= pow2(bits - 1) && n < pow2(bits));
    let x = R::from(n.clone());
    let exact = n == pow2(bits - 1);
    let f = bits as i64 - 1;
    let c = if exact { f } else { f + 1 };
    check!(x.checked_floor_log2() == Some(f) && x.checked_ceil_log2() == Some(c), "log2 of an integer");
    check!(x.to_integer_log2() == if exact { Some(f) } else { None }, "exact log2 of an integer");
    let y = -x;
    check!(y.checked_floor_log2().is_none() && y.checked_ceil_log2().is_none() && y.to_integer_log2().is_none(), "no log2 of a negative number");
    let m = choose("denom", 3) + 1;
    let den = [bi(4), bi(3), pow2(40)][m - 1].clone();
    assume(bits <= 8);
    let q = R::from(Ratio::new(n.clone(), den.clone()));
    // 2^e <= n / den
    let mut e = -41i64;
    let le = |e: i64| if e < 0 { den <= &n << (-e) as usize } else { &den << e as usize <= n };
    while le(e + 1) {
        e += 1;
    }
    let pow = if e < 0 { den == &n << (-e) as usize } else { &den << e as usize == n };
    check!(q.checked_floor_log2() == Some(e), "floor_log2 of a ratio");
    check!(q.checked_ceil_log2() == Some(if pow { e } else { e + 1 }), "ceil_log2 of a ratio");
    check!(q.to_integer_log2() == if pow { Some(e) } else { None }, "exact log2 of a ratio");
}

fn main() {
    main_(&[
        h("convert", convert),
        h("primitives", primitives),
        h("rounding", rounding),
        h("sums", sums),
        h("products", products),
        h("powers", powers),
        h("log2", log2),
    ]);
}
