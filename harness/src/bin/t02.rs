//! Binary logarithms, trailing zeros and exact division of integers.
//! encodes: FloorLog2, CeilLog2, TrailingZeros for BigInt and BigUint, ExactDiv, ExactDivAssign for BigInt, BigUint, Ratio<BigInt> and primitive integer types in all reference forms, IntegerBits, RingCharacteristic
//! outside: logarithms of values above 2^66, trailing zeros: odd parts up to 39 for values below 2^32, up to 2^40 above, times powers of two up to 2^69; divisors of big integers beyond -9 to 9 and 2^70 (dividend: any)
use algebraics::traits::*;
use num_bigint::BigUint;
use num_traits::{Signed, Zero};
use std::convert::TryFrom;
use verif_harness::spec::*;
use verif_harness::*;

fn logs() {
    let top = pow2(if thorough() { 140 } else { 66 });
    let v = any("v");
    assume(v <= top);
    if v.is_positive() {
        let f = v.floor_log2();
        let c = v.ceil_log2();
        check!(f.is_some() && c.is_some(), "logarithms of positive values");
        let (f, c) = (f.unwrap(), c.unwrap());
        check!(pow2(f) <= v && v < pow2(f + 1), "floor_log2");
        check!(v <= pow2(c) && (c == 0 || v > pow2(c - 1)), "ceil_log2");
        let u = BigUint::try_from(v.clone()).unwrap();
        check!(u.floor_log2() == Some(f) && u.ceil_log2() == Some(c), "unsigned");
    } else {
        check!(v.floor_log2().is_none() && v.ceil_log2().is_none(), "no logarithm at or below zero");
    }
    let z = BigUint::zero();
    check!(z.floor_log2().is_none() && z.ceil_log2().is_none() && TrailingZeros::trailing_zeros(&z).is_none(), "zero");
    check!(TrailingZeros::trailing_zeros(&bi(0)).is_none(), "no trailing zeros of zero");
}
fn trailing_zeros() {
    let m = if thorough() { 150 } else { 70 };
    // odd part times power of two
    let k = choose("k", m);
    let o = bi(2) * any("o") + bi(1);
    let small = bi(if thorough() { 256 } else { 40 });
    let a = o.abs();
    let v = &o * pow2(k);
    // below 2^32 the code looks at single values
    assume(a < small || v.abs() >= pow2(32) && a < pow2(if thorough() { 90 } else { 40 }));
    check!(TrailingZeros::trailing_zeros(&v) == Some(k), "trailing_zeros");
    let u = BigUint::try_from(v.abs()).unwrap();
    check!(TrailingZeros::trailing_zeros(&u) == Some(k), "unsigned trailing_zeros");
}
fn divisor() -> BigInt {
    let i = choose("b", 21) as i64;
    match i {
        19 => pow2(70),
        20 => -pow2(70),
        _ => bi(i - 9),
    }
}
fn exact_div() {
    let (a, b) = (any("a"), divisor());
    let ok = !b.is_zero() && (&a % &b).is_zero();
    let r = (&a).checked_exact_div(&b);
    check!(r.is_some() == ok, "exact exactly when nothing remains");
    check!(a.clone().checked_exact_div(b.clone()) == r && a.clone().checked_exact_div(&b) == r && (&a).checked_exact_div(b.clone()) == r, "forms");
    let (mut c, mut d) = (a.clone(), a.clone());
    check!(c.checked_exact_div_assign(&b).is_ok() == ok && d.checked_exact_div_assign(b.clone()).is_ok() == ok, "assigning forms");
    match r {
        Some(q) => {
            check!(&q * &b == a, "quotient");
            check!(c == q && d == q, "assigned quotient");
            check!((&a).exact_div(&b) == q && a.clone().exact_div(b.clone()) == q && a.clone().exact_div(&b) == q && (&a).exact_div(b.clone()) == q, "plain forms");
            let (mut e, mut f) = (a.clone(), a.clone());
            e.exact_div_assign(&b);
            f.exact_div_assign(b.clone());
            check!(e == q && f == q, "plain assigning forms");
        }
        None => {
            check!(c == a && d == a, "a refusal leaves the operand");
            check!(panics(|| (&a).exact_div(&b)) && panics(|| a.clone().exact_div(b.clone())), "inexact division panics");
            check!(panics(|| {
                let mut e = a.clone();
                e.exact_div_assign(&b)
            }), "inexact assigning division panics");
        }
    }
    if let (Ok(u), Ok(w)) = (BigUint::try_from(a.clone()), BigUint::try_from(b.clone())) {
        let r = (&u).checked_exact_div(&w);
        check!(r.is_some() == ok, "unsigned");
        check!(u.clone().checked_exact_div(w.clone()) == r && u.clone().checked_exact_div(&w) == r && (&u).checked_exact_div(w.clone()) == r, "unsigned forms");
        let mut c = u.clone();
        check!(c.checked_exact_div_assign(&w).is_ok() == ok, "unsigned assigning");
        match r {
            Some(q) => check!(&q * &w == u && c == q && (&u).exact_div(&w) == q, "unsigned quotient"),
            None => check!(c == u && panics(|| (&u).exact_div(&w)), "unsigned refusal"),
        }
    }
}
fn exact_div_ratio() {
    let a = Ratio::new(any("an"), bi(choose("ad", 4) as i64 + 1));
    let b = Ratio::new(bi(choose("bn", 9) as i64 - 4), bi(choose("bd", 3) as i64 + 1));
    let ok = !b.is_zero();
    let r = (&a).checked_exact_div(&b);
    check!(r.is_some() == ok, "defined for every divisor but zero");
    check!(a.clone().checked_exact_div(b.clone()) == r && a.clone().checked_exact_div(&b) == r && (&a).checked_exact_div(b.clone()) == r, "forms");
    let (mut c, mut d) = (a.clone(), a.clone());
    check!(c.checked_exact_div_assign(&b).is_ok() == ok && d.checked_exact_div_assign(b.clone()).is_ok() == ok, "assigning forms");
    match r {
        Some(q) => {
            check!(&q * &b == a && c == q && d == q, "quotient");
            check!((&a).exact_div(&b) == q && a.clone().exact_div(b.clone()) == q, "plain forms");
            let mut e = a.clone();
            e.exact_div_assign(&b);
            check!(e == q, "plain assigning form");
        }
        None => {
            check!(c == a && d == a, "a refusal leaves the operand");
            check!(panics(|| (&a).exact_div(&b)), "division by zero panics");
        }
    }
    // by an integer
    let n = bi(choose("n", 5) as i64 - 2);
    let ok = !n.is_zero();
    let r = (&a).checked_exact_div(&n);
    check!(r.is_some() == ok && a.clone().checked_exact_div(n.clone()) == r && (&a).checked_exact_div(n.clone()) == r && a.clone().checked_exact_div(&n) == r, "by an integer");
    let mut c = a.clone();
    check!(c.checked_exact_div_assign(&n).is_ok() == ok, "assigning by an integer");
    match r {
        Some(q) => check!(&q * &n == a && c == q, "quotient by an integer"),
        None => check!(c == a, "a refusal leaves the operand"),
    }
}
fn primitive() {
    macro_rules! t {
        ($t:ty) => {{
            let m = <$t>::MAX;
            let n = <$t>::MIN;
            let w: [$t; 10] = [0, 1, 2, 6, m, m - 1, n, n / 2, (0 as $t).wrapping_sub(1), 5];
            let (a, b) = (w[choose("a", 10)], w[choose("b", 10)]);
            let (x, y) = (BigInt::from(a), BigInt::from(b));
            let want = if y.is_zero() || !(&x % &y).is_zero() { None } else { <$t>::try_from(&x / &y).ok() };
            let forms = [(&a).checked_exact_div(&b), a.checked_exact_div(b), a.checked_exact_div(&b), (&a).checked_exact_div(b)];
            check!(forms.iter().all(|r| *r == want), "exact division");
            let (mut c, mut d) = (a, a);
            check!(c.checked_exact_div_assign(&b).is_ok() == want.is_some() && d.checked_exact_div_assign(b).is_ok() == want.is_some(), "assigning forms");
            check!(c == want.unwrap_or(a) && d == c, "assigned value");
            match want {
                Some(q) => check!(a.exact_div(b) == q && (&a).exact_div(&b) == q, "plain form"),
                None => check!(panics(|| a.exact_div(b)) && panics(|| (&a).exact_div(&b)), "inexact division panics"),
            }
            // logarithms
            let f = FloorLog2::floor_log2(&a);
            let c = CeilLog2::ceil_log2(&a);
            check!(f == x.floor_log2() && c == x.ceil_log2(), "logarithms agree with those of big integers");
            check!(TrailingZeros::trailing_zeros(&a) == TrailingZeros::trailing_zeros(&x), "trailing zeros agree with those of big integers");
            check!(<$t as IntegerBits>::BITS == std::mem::size_of::<$t>() * 8 && a.type_bits() == std::mem::size_of::<$t>() * 8, "bits");
            check!(a.characteristic() == CharacteristicZero && a.characteristic().is_zero(), "characteristic");
        }};
    }
    match choose("type", 12) {
        0 => t!(u8),
        1 => t!(u16),
        2 => t!(u32),
        3 => t!(u64),
        4 => t!(u128),
        5 => t!(usize),
        6 => t!(i8),
        7 => t!(i16),
        8 => t!(i32),
        9 => t!(i64),
        10 => t!(i128),
        _ => t!(isize),
    }
}

fn main() {
    main_(&[
        h("logs", logs),
        h("trailing_zeros", trailing_zeros),
        h("exact_div", exact_div),
        h("exact_div_ratio", exact_div_ratio),
        h("primitive", primitive),
    ]);
}
