//! Interval reciprocal and division enclose every quotient; division by an interval
//! around zero is refused.
//! encodes: DyadicFractionInterval::{checked_recip, recip, contains_zero, do_checked_div_assign, do_div_assign, do_mul_assign, do_mul_assign_ratio}
//! encodes: Div/DivAssign/ExactDiv/ExactDivAssign for DyadicFractionInterval by DyadicFractionInterval, BigInt, BigUint, u8..i128, Ratio<_> (owned, borrowed, assigning and checked forms)
//! outside: log2_denom above 3 (quick) / 7 (thorough) other than 33, 64; integer divisors above 7 / 15 in absolute value (the interval's bounds are unbounded)
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use algebraics::traits::{ExactDiv, ExactDivAssign};
use num_traits::{Signed, ToPrimitive};
use verif_harness::spec::*;
use verif_harness::*;

fn q(quick: usize, th: usize) -> usize {
    if thorough() {
        th
    } else {
        quick
    }
}
fn ival(n: &str) -> (D, BigInt, BigInt, usize) {
    let ld = precision(&format!("{}_ld", n), q(3, 7), &[33, 64]);
    let lo = any(&format!("{}_lo", n));
    let hi = any(&format!("{}_hi", n));
    assume(lo <= hi);
    (D::new(lo.clone(), hi.clone(), ld), lo, hi, ld)
}

fn recip() {
    let (a, lo, hi, ld) = ival("a");
    let d = pow2(2 * ld);
    if !lo.is_positive() && !hi.is_negative() {
        cover("zero");
        check!(a.checked_recip().is_none(), "no reciprocal of an interval around zero");
        check!(panics(|| a.recip()), "recip panics on an interval around zero");
        return;
    }
    let r = a.checked_recip();
    check!(r.is_some(), "reciprocal exists away from zero");
    let r = r.unwrap();
    check!(r.log2_denom() == ld, "recip keeps the denominator");
    let (l, u) = (r.lower_bound_numer(), r.upper_bound_numer());
    if lo.is_positive() {
        cover("positive");
        // l = floor(d / hi), u = ceil(d / lo)
        check!(is_floor(l, &d, &hi), "recip lower bound");
        check!(is_ceil(u, &d, &lo), "recip upper bound");
    } else {
        cover("negative");
        let (nlo, nhi) = (-&lo, -&hi);
        let nd = -&d;
        check!(is_floor(l, &nd, &nhi), "recip lower bound");
        check!(is_ceil(u, &nd, &nlo), "recip upper bound");
    }
    check!(a.recip().is_same(&r), "recip agrees with checked_recip");
}

fn div_forms() {
    let (a, _, _, _) = ival("a");
    let (b, bl, bh, _) = ival("b");
    if !bl.is_positive() && !bh.is_negative() {
        cover("zero");
        check!((&a).checked_exact_div(&b).is_none(), "checked_exact_div");
        check!(a.clone().checked_exact_div(b.clone()).is_none(), "checked_exact_div own");
        check!((&a).checked_exact_div(b.clone()).is_none(), "checked_exact_div (&,own)");
        check!(a.clone().checked_exact_div(&b).is_none(), "checked_exact_div (own,&)");
        let mut c = a.clone();
        check!(c.checked_exact_div_assign(&b).is_err(), "checked_exact_div_assign");
        let mut c = a.clone();
        check!(c.checked_exact_div_assign(b.clone()).is_err(), "checked_exact_div_assign own");
        check!(panics(|| &a / &b), "division by an interval around zero panics");
        check!(panics(|| a.clone().exact_div(b.clone())), "exact_div by an interval around zero panics");
        return;
    }
    cover("ok");
    let r = &a * b.recip();
    macro_rules! same {
        ($e:expr, $m:expr) => {
            check!($e.is_same(&r), $m)
        };
    }
    same!((&a / &b), "(&,&)");
    same!((&a / b.clone()), "(&,own)");
    same!((a.clone() / &b), "(own,&)");
    same!((a.clone() / b.clone()), "(own,own)");
    same!((&a).exact_div(&b), "exact_div (&,&)");
    same!((&a).exact_div(b.clone()), "exact_div (&,own)");
    same!(a.clone().exact_div(&b), "exact_div (own,&)");
    same!(a.clone().exact_div(b.clone()), "exact_div");
    same!((&a).checked_exact_div(&b).unwrap(), "checked_exact_div (&,&)");
    same!(a.clone().checked_exact_div(b.clone()).unwrap(), "checked_exact_div");
    let mut c = a.clone();
    c /= &b;
    same!(c, "/= &");
    let mut c = a.clone();
    c /= b.clone();
    same!(c, "/= own");
    let mut c = a.clone();
    c.exact_div_assign(&b);
    same!(c, "exact_div_assign &");
    let mut c = a.clone();
    c.exact_div_assign(b.clone());
    same!(c, "exact_div_assign");
    let mut c = a.clone();
    check!(c.checked_exact_div_assign(&b).is_ok(), "checked_exact_div_assign ok");
    same!(c, "checked_exact_div_assign");
}

/// any x in a, y in b: x / y lies in a / b
fn div_points() {
    let n = q(5, 8) as i64;
    let ald = choose("a_ld", 3);
    let bld = choose("b_ld", 3);
    let (al, ah, x) = (int("al", -n, n), int("ah", -n, n), int("x", -n, n));
    let (bl, bh, y) = (int("bl", -n, n), int("bh", -n, n), int("y", -n, n));
    assume(al <= x && x <= ah && bl <= y && y <= bh);
    assume(bl.is_positive() || bh.is_negative());
    let r = D::new(al, ah, ald) / D::new(bl, bh, bld);
    let ld = r.log2_denom();
    // l / 2^ld <= (x / 2^ald) / (y / 2^bld)
    let num = x << (ld + bld);
    let den = y << ald;
    let (num, den) = if den.is_negative() { (-num, -den) } else { (num, den) };
    check!(r.lower_bound_numer() * &den <= num, "quotient above the lower bound");
    check!(r.upper_bound_numer() * &den >= num, "quotient below the upper bound");
}

macro_rules! forms {
    ($a:expr, $b:expr, $ok:expr, $what:expr) => {{
        let (a, b) = (&$a, &$b);
        check!($ok(&(a / b)), "{} (&,&)", $what);
        check!($ok(&(a / b.clone())), "{} (&,own)", $what);
        check!($ok(&(a.clone() / b)), "{} (own,&)", $what);
        check!($ok(&(a.clone() / b.clone())), "{} (own,own)", $what);
        let mut r = a.clone();
        r /= b;
        check!($ok(&r), "{} (assign &)", $what);
        let mut r = a.clone();
        r /= b.clone();
        check!($ok(&r), "{} (assign own)", $what);
    }};
}

/// r is the tightest enclosure of [lo, hi] * n / d  (d != 0)
fn tight(r: &D, lo: &BigInt, hi: &BigInt, ld: usize, n: i64, d: i64) -> bool {
    let (n, d) = if d < 0 { (-n, -d) } else { (n, d) };
    let (x, y) = (lo * n, hi * n);
    let (x, y) = if n < 0 { (y, x) } else { (x, y) };
    r.log2_denom() == ld
        && is_floor(r.lower_bound_numer(), &x, &bi(d))
        && is_ceil(r.upper_bound_numer(), &y, &bi(d))
}

fn scalar_int() {
    let (a, lo, hi, ld) = ival("a");
    let m = q(7, 15);
    let d = choose("d", 2 * m + 1) as i64 - m as i64;
    if d == 0 {
        cover("zero");
        check!(panics(|| &a / bi(0)), "division by zero panics");
        return;
    }
    let b = bi(d);
    let ok = |r: &D| tight(r, &lo, &hi, ld, 1, d);
    forms!(a, b, ok, "interval / BigInt");
    if d > 0 {
        forms!(a, BigUint::from(d as u64), ok, "interval / BigUint");
        forms!(a, d as u8, ok, "interval / u8");
        forms!(a, d as u16, ok, "interval / u16");
        forms!(a, d as u32, ok, "interval / u32");
        forms!(a, d as u64, ok, "interval / u64");
        forms!(a, d as u128, ok, "interval / u128");
        forms!(a, d as usize, ok, "interval / usize");
    }
    forms!(a, d as i8, ok, "interval / i8");
    forms!(a, d as i16, ok, "interval / i16");
    forms!(a, d as i32, ok, "interval / i32");
    forms!(a, d, ok, "interval / i64");
    forms!(a, d as i128, ok, "interval / i128");
    forms!(a, d as isize, ok, "interval / isize");
}

fn scalar_ratio() {
    let (a, lo, hi, ld) = ival("a");
    let m = q(3, 6) as i64;
    let n = int("n", -m, m).to_i64().unwrap();
    let d = int("d", 1, m + 1).to_i64().unwrap();
    assume(n != 0);
    let r = Ratio::new(bi(n), bi(d));
    let ok = |x: &D| tight(x, &lo, &hi, ld, d, n);
    forms!(a, r, ok, "interval / Ratio");
    forms!(a, Ratio::new(n as i8, d as i8), ok, "interval / Ratio<i8>");
    forms!(a, Ratio::new(n, d), ok, "interval / Ratio<i64>");
}

fn main() {
    main_(&[
        h("recip", recip).covers(&["zero", "positive", "negative"]),
        h("div_forms", div_forms).covers(&["zero", "ok"]),
        h("div_points", div_points),
        h("scalar_int", scalar_int).covers(&["zero"]),
        h("scalar_ratio", scalar_ratio),
    ])
}
