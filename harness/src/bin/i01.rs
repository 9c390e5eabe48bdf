//! Interval construction, conversion, bounds and set operations.
//! encodes: DyadicFractionInterval::{new, from_ratio_range, from_ratio, from_int, from_int_range, from_dyadic_fraction, zero, one, negative_one, set_zero, set_one, set_negative_one}
//! encodes: DyadicFractionInterval::{into_ratio_range, to_ratio_range, into_lower_bound, into_upper_bound, lower_bound, upper_bound, destructure, set_to_lower_bound, set_to_upper_bound, set_lower_bound_numer, set_upper_bound_numer, set_lower_bound_to_zero, set_upper_bound_to_zero}
//! encodes: DyadicFractionInterval::{convert_log2_denom, into_converted_log2_denom, to_converted_log2_denom, floor, into_floor, floor_assign, ceil, into_ceil, ceil_assign, contains_zero, is_same, interval_union (all forms)}, convert_log2_denom_floor, convert_log2_denom_ceil
//! outside: log2_denom above 5 (quick) / 12 (thorough) other than 32, 64, 130 (constructors also 31, 63, 65; bounds read back as ratios: 32, 64, 65 at listed values); ratio denominators above 6 / 12; Display and Debug output
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use algebraics::traits::{IntervalUnion, IntervalUnionAssign};
use num_traits::{One, Signed, Zero};
use verif_harness::spec::*;
use verif_harness::*;

fn q(quick: usize, th: usize) -> usize {
    if thorough() {
        th
    } else {
        quick
    }
}

fn ival(n: &str) -> (D, BigInt, BigInt, usize) {
    let ld = precision(&format!("{}_ld", n), q(5, 12), &[32, 64, 130]);
    let lo = any(&format!("{}_lo", n));
    let hi = any(&format!("{}_hi", n));
    assume(lo <= hi);
    (D::new(lo.clone(), hi.clone(), ld), lo, hi, ld)
}
fn is(d: &D, lo: &BigInt, hi: &BigInt, ld: usize) -> bool {
    d.log2_denom() == ld && d.lower_bound_numer() == lo && d.upper_bound_numer() == hi
}

fn new_() {
    let lo = any("lo");
    let hi = any("hi");
    let ld = choose("ld", 4);
    let ok = lo <= hi;
    let (l, u) = (lo.clone(), hi.clone());
    if ok {
        cover("ok");
        let d = D::new(lo, hi, ld);
        check!(is(&d, &l, &u, ld), "new");
        let (a, b, c) = d.destructure();
        check!(a == l && b == u && c == ld, "destructure");
    } else {
        cover("bad");
        check!(panics(|| D::new(lo, hi, ld)), "new rejects inverted bounds");
    }
}

fn from_ratio() {
    let (n, d, r) = any_ratio("q", q(6, 12));
    let ld = precision("ld", q(5, 12), &[31, 32, 63, 64, 65, 130]);
    let i = D::from_ratio(r, ld);
    let n = n << ld;
    check!(i.log2_denom() == ld, "from_ratio denominator");
    check!(is_floor(i.lower_bound_numer(), &n, &d), "from_ratio lower bound is the floor");
    check!(is_ceil(i.upper_bound_numer(), &n, &d), "from_ratio upper bound is the ceiling");
}

fn from_ratio_range() {
    let (n1, d1, r1) = any_ratio("a", q(4, 7));
    let (n2, d2, r2) = any_ratio("b", q(4, 7));
    let ld = precision("ld", q(3, 6), &[64]);
    if &n1 * &d2 <= &n2 * &d1 {
        cover("ok");
        let i = D::from_ratio_range(r1, r2, ld);
        check!(i.log2_denom() == ld, "denominator");
        check!(is_floor(i.lower_bound_numer(), &(n1 << ld), &d1), "from_ratio_range lower bound is the floor");
        check!(is_ceil(i.upper_bound_numer(), &(n2 << ld), &d2), "from_ratio_range upper bound is the ceiling");
    } else {
        cover("bad");
        check!(panics(|| D::from_ratio_range(r1, r2, ld)), "from_ratio_range rejects inverted bounds");
    }
}

fn from_ints() {
    let a = any("a");
    let b = any("b");
    let ld = precision("ld", q(5, 12), &[31, 32, 63, 64, 65, 130]);
    let (sa, sb) = (&a << ld, &b << ld);
    check!(is(&D::from_int(a.clone(), ld), &sa, &sa, ld), "from_int");
    check!(is(&D::from_dyadic_fraction(a.clone(), ld), &a, &a, ld), "from_dyadic_fraction");
    let one = pow2(ld);
    let z = BigInt::zero();
    check!(is(&D::zero(ld), &z, &z, ld), "zero");
    check!(is(&D::one(ld), &one, &one, ld), "one");
    check!(is(&D::negative_one(ld), &-&one, &-&one, ld), "negative_one");
    if a <= b {
        let i = D::from_int_range(a.clone(), b.clone(), ld);
        check!(is(&i, &sa, &sb, ld), "from_int_range");
        let mut j = i.clone();
        j.set_zero();
        check!(is(&j, &z, &z, ld), "set_zero");
        let mut j = i.clone();
        j.set_one();
        check!(is(&j, &one, &one, ld), "set_one");
        let mut j = i;
        j.set_negative_one();
        check!(is(&j, &-&one, &-&one, ld), "set_negative_one");
    } else {
        cover("bad");
        check!(panics(|| D::from_int_range(a, b, ld)), "from_int_range rejects inverted bounds");
    }
}

fn accessors() {
    accessors_of("a", choose("ld", q(5, 12) + 1), false)
}
fn accessors_fine() {
    accessors_of("a", [32, 64, 65][choose("ld", 3)], true)
}
fn accessors_of(n: &str, ld: usize, point: bool) {
    let (lo, hi) = if point {
        // made concrete: the common divisors with 2^64 are too many otherwise
        let m = [-3i64, -1, 0, 1, 5, 7][choose("m", 6)];
        let lo: BigInt = bi(m) << [0usize, 1, 31, 32, 63, 64, 70][choose("k", 7)];
        (lo.clone(), lo + choose("width", 3))
    } else {
        (any(&format!("{}_lo", n)), any(&format!("{}_hi", n)))
    };
    assume(lo <= hi);
    let d = D::new(lo.clone(), hi.clone(), ld);
    let p = pow2(ld);
    let same = |r: &Ratio<BigInt>, n: &BigInt| r.numer() * &p == n * r.denom() && r.denom().is_positive();
    check!(same(&d.lower_bound(), &lo), "lower_bound");
    check!(same(&d.upper_bound(), &hi), "upper_bound");
    check!(same(&d.clone().into_lower_bound(), &lo), "into_lower_bound");
    check!(same(&d.clone().into_upper_bound(), &hi), "into_upper_bound");
    let (a, b) = d.to_ratio_range();
    check!(same(&a, &lo) && same(&b, &hi), "to_ratio_range");
    check!(canonical(&a) && canonical(&b), "ratio bounds are in lowest terms");
    let (a, b) = d.clone().into_ratio_range();
    check!(same(&a, &lo) && same(&b, &hi), "into_ratio_range");
    check!(
        d.contains_zero() == (!lo.is_positive() && !hi.is_negative()),
        "contains_zero"
    );
}

fn setters() {
    let (d, lo, hi, ld) = ival("a");
    let z = BigInt::zero();
    let mut e = d.clone();
    e.set_to_lower_bound();
    check!(is(&e, &lo, &lo, ld), "set_to_lower_bound");
    let mut e = d.clone();
    e.set_to_upper_bound();
    check!(is(&e, &hi, &hi, ld), "set_to_upper_bound");
    let x = any("x");
    let mut e = d.clone();
    if x <= hi {
        e.set_lower_bound_numer(x.clone());
        check!(is(&e, &x, &hi, ld), "set_lower_bound_numer");
    } else {
        check!(panics(|| e.set_lower_bound_numer(x.clone())), "set_lower_bound_numer above the upper bound");
    }
    let mut e = d.clone();
    if x >= lo {
        e.set_upper_bound_numer(x.clone());
        check!(is(&e, &lo, &x, ld), "set_upper_bound_numer");
    } else {
        check!(panics(|| e.set_upper_bound_numer(x.clone())), "set_upper_bound_numer below the lower bound");
    }
    let mut e = d.clone();
    if hi.is_negative() {
        check!(panics(|| e.set_lower_bound_to_zero()), "set_lower_bound_to_zero above the upper bound");
    } else {
        e.set_lower_bound_to_zero();
        check!(is(&e, &z, &hi, ld), "set_lower_bound_to_zero");
    }
    let mut e = d.clone();
    if lo.is_positive() {
        check!(panics(|| e.set_upper_bound_to_zero()), "set_upper_bound_to_zero below the lower bound");
    } else {
        e.set_upper_bound_to_zero();
        check!(is(&e, &lo, &z, ld), "set_upper_bound_to_zero");
    }
}

fn convert() {
    let (d, lo, hi, ld) = ival("a");
    let nd = choose("nd", q(6, 14) + 1);
    if nd < ld {
        cover("narrow")
    }
    if nd > ld {
        cover("widen")
    }
    // tightest enclosure at the new denominator
    let ok = |r: &D| {
        let (n, o) = (pow2(nd), pow2(ld));
        r.log2_denom() == nd
            && is_floor(r.lower_bound_numer(), &(&lo * &n), &o)
            && is_ceil(r.upper_bound_numer(), &(&hi * &n), &o)
    };
    check!(ok(&d.to_converted_log2_denom(nd)), "to_converted_log2_denom");
    check!(ok(&d.clone().into_converted_log2_denom(nd)), "into_converted_log2_denom");
    let mut e = d.clone();
    e.convert_log2_denom(nd);
    check!(ok(&e), "convert_log2_denom");
    check!(e.lower_bound_numer() <= e.upper_bound_numer(), "still an interval");
}

fn floor_ceil() {
    let (d, lo, hi, ld) = ival("a");
    let nd = choose("nd", q(4, 9) + 1);
    let (p, n) = (pow2(ld), pow2(nd));
    let exact = |x: &BigInt, f: &dyn Fn(&BigInt) -> bool| {
        // x is an integer at denominator 2^nd, and that integer satisfies f
        let k = x >> nd;
        &k * &n == *x && f(&k)
    };
    let okf = |r: &D| {
        r.log2_denom() == nd
            && exact(r.lower_bound_numer(), &|k| is_floor(k, &lo, &p))
            && exact(r.upper_bound_numer(), &|k| is_floor(k, &hi, &p))
    };
    let okc = |r: &D| {
        r.log2_denom() == nd
            && exact(r.lower_bound_numer(), &|k| is_ceil(k, &lo, &p))
            && exact(r.upper_bound_numer(), &|k| is_ceil(k, &hi, &p))
    };
    check!(okf(&d.floor(nd)), "floor");
    check!(okf(&d.clone().into_floor(nd)), "into_floor");
    let mut e = d.clone();
    e.floor_assign(nd);
    check!(okf(&e), "floor_assign");
    check!(okc(&d.ceil(nd)), "ceil");
    check!(okc(&d.clone().into_ceil(nd)), "into_ceil");
    let mut e = d;
    e.ceil_assign(nd);
    check!(okc(&e), "ceil_assign");
}

fn union() {
    let (a, al, ah, ald) = ival("a");
    let (b, bl, bh, bld) = ival("b");
    let ld = ald.max(bld);
    let (sal, sah) = (&al << (ld - ald), &ah << (ld - ald));
    let (sbl, sbh) = (&bl << (ld - bld), &bh << (ld - bld));
    // the hull: each bound is below/above both and equal to one of them
    let ok = |r: &D| {
        let (l, u) = (r.lower_bound_numer(), r.upper_bound_numer());
        r.log2_denom() == ld
            && *l <= sal
            && *l <= sbl
            && (*l == sal || *l == sbl)
            && *u >= sah
            && *u >= sbh
            && (*u == sah || *u == sbh)
    };
    check!(ok(&(&a).interval_union(&b)), "union (&,&)");
    check!(ok(&(&a).interval_union(b.clone())), "union (&,own)");
    check!(ok(&a.clone().interval_union(&b)), "union (own,&)");
    check!(ok(&a.clone().interval_union(b.clone())), "union (own,own)");
    let mut c = a.clone();
    c.interval_union_assign(&b);
    check!(ok(&c), "union_assign &");
    let mut c = a.clone();
    c.interval_union_assign(b.clone());
    check!(ok(&c), "union_assign own");
    check!(
        a.is_same(&b) == (ald == bld && al == bl && ah == bh),
        "is_same"
    );
    check!(a.is_same(&a.clone()), "is_same is reflexive");
    let _ = BigInt::one();
}

fn main() {
    main_(&[
        h("new", new_).covers(&["ok", "bad"]),
        h("from_ratio", from_ratio),
        h("from_ratio_range", from_ratio_range).covers(&["ok", "bad"]),
        h("from_ints", from_ints).covers(&["bad"]),
        h("accessors_fine", accessors_fine),
        h("accessors", accessors),
        h("setters", setters),
        h("convert", convert).covers(&["narrow", "widen"]),
        h("floor_ceil", floor_ceil),
        h("union", union),
    ])
}
