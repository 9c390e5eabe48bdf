//! Interval square root and arithmetic-geometric mean.
//! encodes: DyadicFractionInterval::{sqrt, into_sqrt, sqrt_assign, do_sqrt, sqrt_2, arithmetic_geometric_mean, into_arithmetic_geometric_mean}, ConstantCache::{get, fill_cache, read_cache, write_cache, log2_denom_to_cache_index, get_required_log2_denom_for_cache_index}
//! outside: sqrt with log2_denom above 6 (quick) / 16 (thorough) other than 31, 32, 63, 64, 130, bounds themselves unbounded; sqrt_2 above log2_denom 200 / 1500; arithmetic-geometric mean: inputs outside 0..=10 / 2^0..3 (quick), made concrete one by one
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use num_traits::{Signed, ToPrimitive};
use verif_harness::spec::*;
use verif_harness::*;

fn q(quick: usize, th: usize) -> usize {
    if thorough() {
        th
    } else {
        quick
    }
}

fn sqrt() {
    let ld = precision("ld", q(6, 16), &[31, 32, 63, 64, 130]);
    let lo = any("lo");
    let hi = any("hi");
    assume(lo <= hi);
    let a = D::new(lo.clone(), hi.clone(), ld);
    if lo.is_negative() {
        cover("negative");
        check!(panics(|| a.sqrt()), "no square root of an interval reaching below zero");
        return;
    }
    let r = a.sqrt();
    let (l, u) = (r.lower_bound_numer(), r.upper_bound_numer());
    let (x, y) = (&lo << ld, &hi << ld);
    check!(r.log2_denom() == ld, "sqrt keeps the denominator");
    check!(!l.is_negative(), "sqrt lower bound is not negative");
    check!(l * l <= x && x < (l + 1) * (l + 1), "sqrt lower bound is the floor of the root");
    check!(!u.is_negative() && u * u >= y, "sqrt upper bound is above the root");
    if u.is_positive() {
        check!((u - 1) * (u - 1) < y, "sqrt upper bound is the ceiling of the root");
    }
    check!(a.clone().into_sqrt().is_same(&r), "into_sqrt");
    let mut c = a.clone();
    c.sqrt_assign();
    check!(c.is_same(&r), "sqrt_assign");
}

fn sqrt_2() {
    let ld = choose("ld", q(201, 1501));
    let r = D::sqrt_2(ld);
    let (l, u) = (r.lower_bound_numer(), r.upper_bound_numer());
    let two = pow2(2 * ld + 1);
    check!(r.log2_denom() == ld, "sqrt_2 denominator");
    check!(l * l <= two && two <= u * u, "sqrt_2 encloses the root of two");
    check!(u - l <= bi(1) && !l.is_negative(), "sqrt_2 is one unit wide");
    // asking for a coarser value afterwards (served from the cache) must agree
    let half = ld / 2;
    let r = D::sqrt_2(half);
    let (l, u) = (r.lower_bound_numer(), r.upper_bound_numer());
    let two = pow2(2 * half + 1);
    check!(r.log2_denom() == half && l * l <= two && two <= u * u && u - l <= bi(1), "sqrt_2 from the cache");
}

/// (floor, ceil) enclosure of agm(a/2^ld, b/2^ld) at 2^-p
fn agm_ref(a: &BigInt, b: &BigInt, ld: usize, p: usize) -> (BigInt, BigInt) {
    // work at 2^-(p + 20) with directed rounding
    let w = p + 20;
    let (mut al, mut gl) = (a << (w - ld), b << (w - ld));
    let (mut ah, mut gh) = (al.clone(), gl.clone());
    for _ in 0..40 {
        let (na_l, na_h) = ((&al + &gl) >> 1usize, -((-(&ah + &gh)) >> 1usize));
        let (ng_l, ng_h) = ((&al * &gl).sqrt(), (&ah * &gh).sqrt() + 1);
        al = na_l;
        ah = na_h;
        gl = ng_l;
        gh = ng_h;
    }
    let lo = if al < gl { al } else { gl };
    let hi = if ah > gh { ah } else { gh };
    (lo >> 20usize, (hi >> 20usize) + 1)
}

fn agm() {
    let m = q(7, 14) as i64;
    let ald = choose("a_ld", 3);
    let bld = choose("b_ld", 3);
    let (al, ah) = (int("al", 0, m), int("ah", 0, m));
    let (bl, bh) = (int("bl", 0, m), int("bh", 0, m));
    assume(al <= ah && bl <= bh);
    // points, or a proper interval against a point
    assume(al == ah || bl == bh);
    let c = |v: &BigInt| bi(v.to_i64().unwrap());
    let (al, ah, bl, bh) = (c(&al), c(&ah), c(&bl), c(&bh));
    let (a, b) = (D::new(al.clone(), ah.clone(), ald), D::new(bl.clone(), bh.clone(), bld));
    let r = a.arithmetic_geometric_mean(&b);
    let ld = ald.max(bld);
    check!(r.log2_denom() == ld, "agm denominator");
    let p = 40;
    let sc = |v: &BigInt, d: usize| v << (ld - d);
    let (lo, _) = agm_ref(&sc(&al, ald), &sc(&bl, bld), ld, p);
    let (_, hi) = agm_ref(&sc(&ah, ald), &sc(&bh, bld), ld, p);
    // the reference is only 2^-40 wide
    check!((r.lower_bound_numer() << (p - ld)) <= lo + 2, "agm lower bound");
    check!((r.upper_bound_numer() << (p - ld)) >= hi - 2, "agm upper bound");
    check!(a.clone().into_arithmetic_geometric_mean(b.clone()).is_same(&r), "into_arithmetic_geometric_mean");
}

fn main() {
    main_(&[
        h("sqrt", sqrt).covers(&["negative"]),
        h("sqrt_2", sqrt_2),
        h("agm", agm),
    ])
}
