//! Interval logarithm and exponential enclose the true values.
//! encodes: DyadicFractionInterval::{log, log_core, exp, into_exp, natural_log_of_2}, ConstantCache::{get, fill_cache, read_cache, write_cache}
//! outside: inputs are made concrete one by one within the listed domain (log: numerators 1..=40 (thorough 160) scaled by 2^0, 2^7, 2^40, with widths 0, 1, 5, 1000 and log2_denom 0, 1, 2, 3, 5, 8, 13 (20), and numerators one around 2^k and 3*2^(k-1) for log2_denom up to 33 (thorough 100), up to intervals wide by a factor 2^70; exp: -24..=24 (thorough 80) with widths 0, 1, 3, 40 and log2_denom up to 12, powers of two at log2_denom up to 47, and values one around plus and minus 2^j with j up to 7 (thorough 9) above and up to 130 below zero, also in wide intervals); nothing is claimed beyond it
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use num_traits::{Signed, ToPrimitive};
use verif_harness::spec::*;
use verif_harness::*;

fn q(quick: usize, th: usize) -> usize {
    if thorough() {
        th
    } else {
        quick
    }
}

/// bounds on 2 * atanh(a / b) * 2^w, 0 <= a/b <= 1/3
fn atanh2(a: &BigInt, b: &BigInt, w: usize) -> (BigInt, BigInt) {
    let mut lo = bi(0);
    let mut hi = bi(0);
    let (mut nl, mut nh) = ((a << (w + 1)) / b, (a << (w + 1)) / b + 1);
    let mut k = 1u32;
    while nh > bi(1) {
        lo += &nl / k;
        hi += &nh / k + 1;
        nl = nl * a / b * a / b;
        nh = (nh * a / b + 1) * a / b + 1;
        k += 2;
        if k > 4000 {
            break;
        }
    }
    // the tail is geometric with ratio 1/9 and starts below 4 units
    (lo, hi + 8)
}

/// bounds on ln(n / 2^ld) * 2^w for n > 0
fn ln_ref(n: &BigInt, ld: usize, w: usize) -> (BigInt, BigInt) {
    let bits = n.bits() as usize; // n in [2^(bits-1), 2^bits)
    let one = pow2(bits - 1);
    // y = n / 2^(bits-1) in [1, 2)
    let (yl, yh) = atanh2(&(n - &one), &(n + &one), w);
    let (tl, th) = atanh2(&bi(1), &bi(3), w); // ln 2
    let e = bits as i64 - 1 - ld as i64;
    if e >= 0 {
        (yl + &tl * e, yh + &th * e)
    } else {
        (yl + &th * e, yh + &tl * e)
    }
}

fn c(v: &BigInt) -> BigInt {
    bi(v.to_i64().unwrap())
}

fn log() {
    let ld = [0, 1, 3, 8, 2, 5, 13, 20][choose("ld", q(7, 8))];
    let sh = [0usize, 7, 40, 1][choose("shift", q(3, 4))];
    let n = c(&int("n", 1, q(40, 160) as i64));
    let width = [0, 1, 5, 1000][choose("width", 4)];
    let lo = n << sh;
    let hi: BigInt = &lo + bi(width);
    let a = D::new(lo.clone(), hi.clone(), ld);
    let r = a.log();
    check!(r.log2_denom() == ld, "log denominator");
    let w = ld + 60;
    let (l, _) = ln_ref(&lo, ld, w);
    let (_, u) = ln_ref(&hi, ld, w);
    check!((r.lower_bound_numer() << 60usize) <= &l + 4000, "log lower bound");
    check!((r.upper_bound_numer() << 60usize) >= &u - 4000, "log upper bound");
    if width == 0 {
        check!(r.upper_bound_numer() - r.lower_bound_numer() <= bi(2), "log of a point is narrow");
    }
}

/// around the places where the argument reduction changes: powers of two and three halves of them
fn log_edges() {
    let ld = [0usize, 4, 16, 33, 64, 100][choose("ld", q(4, 6))];
    let k = choose("k", ld.min(3) * 2 + 3) + ld - ld.min(3);
    let m = [2i64, 3][choose("m", 2)];
    let d = int("d", -1, 1);
    let lo = c(&(pow2(k) * m / 2 + d));
    assume(lo.is_positive());
    let hi = [lo.clone(), &lo + 1, &lo * 2, (&lo << 70usize) + 1][choose("hi", 4)].clone();
    let point = lo == hi;
    let a = D::new(lo.clone(), hi.clone(), ld);
    let r = a.log();
    check!(r.log2_denom() == ld, "log denominator");
    let w = ld + 60;
    let (l, _) = ln_ref(&lo, ld, w);
    let (_, u) = ln_ref(&hi, ld, w);
    check!((r.lower_bound_numer() << 60usize) <= &l + 4000, "log lower bound");
    check!((r.upper_bound_numer() << 60usize) >= &u - 4000, "log upper bound");
    if point {
        check!(r.upper_bound_numer() - r.lower_bound_numer() <= bi(2), "log of a point is narrow");
    }
}

fn log_domain() {
    let ld = choose("ld", 4);
    let lo = at_least("lo", -100000);
    let hi = at_least("hi", -100000);
    assume(lo <= hi);
    assume(!lo.is_positive());
    let a = D::new(lo, hi, ld);
    check!(panics(|| a.log()), "log of an interval reaching zero or below panics");
}

fn ln2() {
    let ld = choose("ld", q(130, 700));
    let r = D::natural_log_of_2(ld);
    check!(r.log2_denom() == ld, "natural_log_of_2 denominator");
    let w = ld + 40;
    let (l, u) = atanh2(&bi(1), &bi(3), w);
    check!((r.lower_bound_numer() << 40usize) <= u, "natural_log_of_2 lower bound");
    check!((r.upper_bound_numer() << 40usize) >= l, "natural_log_of_2 upper bound");
    check!((r.lower_bound_numer() << 40usize) <= &l + 4000, "natural_log_of_2 lower bound");
    check!((r.upper_bound_numer() << 40usize) >= &u - 4000, "natural_log_of_2 upper bound");
    check!(r.upper_bound_numer() - r.lower_bound_numer() <= bi(2), "natural_log_of_2 is narrow");
    // coarser value from the cache
    let k = ld / 3;
    let r2 = D::natural_log_of_2(k);
    check!(r2.log2_denom() == k, "cached denominator");
    check!((r2.lower_bound_numer() << (w - k)) <= &l + 4000, "cached lower bound");
    check!((r2.upper_bound_numer() << (w - k)) >= &u - 4000, "cached upper bound");
}

fn check_exp(lo: BigInt, hi: BigInt, ld: usize) {
    let point = lo == hi;
    let a = D::new(lo.clone(), hi.clone(), ld);
    let r = a.exp();
    check!(r.log2_denom() == ld, "exp denominator");
    let (l, u) = (r.lower_bound_numer(), r.upper_bound_numer());
    check!(l <= u, "exp gives an interval");
    check!(!l.is_negative() && u.is_positive(), "exp is positive");
    // compare logarithms: ln(l) <= lo and hi <= ln(u)
    let w = ld + 80;
    if l.is_positive() {
        check!(ln_ref(l, ld, w).0 <= (&lo << 80usize), "exp lower bound");
    }
    check!(ln_ref(u, ld, w).1 >= (&hi << 80usize), "exp upper bound");
    if point {
        check!(u - l <= bi(2), "exp of a point is narrow");
    }
    check!(a.into_exp().is_same(&r), "into_exp");
}

fn exp() {
    let ld = [0, 1, 3, 8, 2, 5, 12][choose("ld", q(6, 7))];
    let m = q(24, 80) as i64;
    let lo = c(&int("n", -m, m));
    let width = [0, 1, 3, 40][choose("width", 4)];
    check_exp(lo.clone(), lo + bi(width), ld);
}

fn exp_small() {
    let ld = [9usize, 33, 41, 43, 47][choose("ld", 5)];
    let j = choose("j", 6);
    let neg = choose("neg", 2);
    let v = pow2(j);
    let v = if neg == 1 { -v } else { v };
    check_exp(v.clone(), v, ld);
}

/// results far above one, far below the precision, and shifts that fit no machine integer
fn exp_far() {
    let ld = [0usize, 3, 9][choose("ld", 3)];
    let j = [5usize, 6, 7, 8, 9, 31, 32, 62, 63, 64, 65, 70, 130][choose("j", 13)];
    let d = int("d", -1, 1);
    let v = c(&(pow2(j.min(62)) + d)) << (j - j.min(62));
    let top = bi([-1000, 0, 3][choose("top", 3)]);
    let n = -v.clone();
    check_exp(n.clone(), n.clone(), ld);
    check_exp(n.clone(), &n + 5, ld);
    if n < top {
        check_exp(n, top, ld);
    }
    if j <= q(7, 9) {
        check_exp(v.clone(), v.clone(), ld);
        check_exp(-v.clone(), v, ld);
    }
}

fn main() {
    main_(&[
        h("log", log).fuel(100_000_000),
        h("log_edges", log_edges).fuel(100_000_000),
        h("log_domain", log_domain),
        h("ln2", ln2).fuel(100_000_000),
        h("exp", exp).fuel(100_000_000),
        h("exp_far", exp_far).fuel(100_000_000),
        h("exp_small", exp_small).fuel(100_000_000),
    ])
}
