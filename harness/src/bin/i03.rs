//! Interval multiplication, squaring and absolute value enclose every product, tightly.
//! encodes: DyadicFractionInterval::{do_op_assign, do_mul_assign, do_mul_assign_int, do_mul_assign_ratio, square, into_square, square_assign, abs, into_abs, abs_assign}
//! encodes: Mul/MulAssign<DyadicFractionInterval | BigInt | BigUint | u8..i128 | Ratio<_>> for DyadicFractionInterval (owned, borrowed and assigning forms)
//! outside: log2_denom above 3 (quick) / 8 (thorough) other than 33, 64 (products: the pairs (33, 33), (64, 0), (1, 65), (130, 64), (32, 31) with listed bounds of one factor); Ratio scalars with denominator above 5 / 9
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use num_traits::{Signed, Zero};
use verif_harness::spec::*;
use verif_harness::*;

fn q(quick: usize, th: usize) -> usize {
    if thorough() {
        th
    } else {
        quick
    }
}
fn ival(n: &str) -> (D, BigInt, BigInt, usize) {
    let ld = choose(&format!("{}_ld", n), q(3, 8) + 1);
    let lo = any(&format!("{}_lo", n));
    let hi = any(&format!("{}_hi", n));
    assume(lo <= hi);
    (D::new(lo.clone(), hi.clone(), ld), lo, hi, ld)
}

fn ival_fine(n: &str) -> (D, BigInt, BigInt, usize) {
    let ld = precision(&format!("{}_ld", n), q(3, 8), &[33, 64]);
    let lo = any(&format!("{}_lo", n));
    let hi = any(&format!("{}_hi", n));
    assume(lo <= hi);
    (D::new(lo.clone(), hi.clone(), ld), lo, hi, ld)
}

/// r is the tightest enclosure at denominator 2^ld of the hull of the given values v/2^vd
fn hull(r: &D, vals: &[BigInt], vd: usize, ld: usize) -> bool {
    let d = pow2(vd - ld);
    if r.log2_denom() != ld {
        return false;
    }
    let (l, u) = (r.lower_bound_numer(), r.upper_bound_numer());
    let sl = l * &d;
    let su = u * &d;
    let mut tight_l = false;
    let mut tight_u = false;
    for v in vals {
        if !(sl <= *v && *v <= su) {
            return false;
        }
        tight_l |= *v < &sl + &d;
        tight_u |= *v > &su - &d;
    }
    tight_l && tight_u
}

fn mul() {
    let (a, al, ah, ald) = ival("a");
    let (b, bl, bh, bld) = ival("b");
    let ld = ald.max(bld);
    let r = &a * &b;
    // a product of two linear functions is extremal at the corners; scale to denominator 2^(2 ld)
    let k = 2 * ld - ald - bld;
    let corners = [(&al * &bl) << k, (&al * &bh) << k, (&ah * &bl) << k, (&ah * &bh) << k];
    check!(hull(&r, &corners, 2 * ld, ld), "a * b is the tightest enclosure of all products");
    check!(r.lower_bound_numer() <= r.upper_bound_numer(), "still an interval");
    check!((&a * b.clone()).is_same(&r), "(&,own)");
    check!((a.clone() * &b).is_same(&r), "(own,&)");
    check!((a.clone() * b.clone()).is_same(&r), "(own,own)");
    let mut c = a.clone();
    c *= &b;
    check!(c.is_same(&r), "*= &");
    let mut c = a.clone();
    c *= b.clone();
    check!(c.is_same(&r), "*= own");
}

/// precisions around and above machine words; one factor with listed bounds
fn mul_fine() {
    let (ald, bld) = [(33, 33), (64, 0), (1, 65), (130, 64), (32, 31)][choose("lds", 5)];
    let (al, ah) = (any("al"), any("ah"));
    assume(al <= ah);
    let (bl, bh) = [(-3, -2), (-1, 5), (0, 7), (4, 4)][choose("b", 4)];
    let bl: BigInt = (bi(bl) << bld) + choose("d", 2);
    let bh: BigInt = (bi(bh) << bld) + 1;
    let ld = ald.max(bld);
    let (a, b) = (D::new(al.clone(), ah.clone(), ald), D::new(bl.clone(), bh.clone(), bld));
    let k = 2 * ld - ald - bld;
    let corners = [(&al * &bl) << k, (&al * &bh) << k, (&ah * &bl) << k, (&ah * &bh) << k];
    check!(hull(&(&a * &b), &corners, 2 * ld, ld), "a * b is the tightest enclosure of all products");
    check!(hull(&(&b * &a), &corners, 2 * ld, ld), "b * a is the tightest enclosure of all products");
}

/// the same without corner reasoning: any two points of the factors
fn mul_points() {
    let ald = choose("a_ld", 3);
    let bld = choose("b_ld", 3);
    let (al, ah, x) = (int("al", -8, 8), int("ah", -8, 8), int("x", -8, 8));
    let (bl, bh, y) = (int("bl", -8, 8), int("bh", -8, 8), int("y", -8, 8));
    assume(al <= x && x <= ah && bl <= y && y <= bh);
    let ld = ald.max(bld);
    let r = D::new(al, ah, ald) * D::new(bl, bh, bld);
    let p = (x * y) << (2 * ld - ald - bld);
    check!(
        (r.lower_bound_numer() << ld) <= p && p <= (r.upper_bound_numer() << ld),
        "the product of any two members lies in the product interval"
    );
}

fn square_abs() {
    let (a, al, ah, ld) = ival_fine("a");
    let zero_in = !al.is_positive() && !ah.is_negative();
    let z = BigInt::zero();
    let r = a.square();
    let p = pow2(ld);
    // the member farthest from zero is an endpoint; the nearest is zero or an endpoint
    let (near, far) = if -&al >= ah { (&ah, &al) } else { (&al, &ah) };
    check!(r.log2_denom() == ld, "square keeps the denominator");
    if zero_in {
        cover("contains zero");
        check!(*r.lower_bound_numer() == z, "square of an interval around zero starts at zero");
    } else {
        check!(is_floor(r.lower_bound_numer(), &(near * near), &p), "square lower bound");
    }
    check!(is_ceil(r.upper_bound_numer(), &(far * far), &p), "square upper bound");
        check!(a.clone().into_square().is_same(&r), "into_square");
    let mut c = a.clone();
    c.square_assign();
    check!(c.is_same(&r), "square_assign");
    let r = a.abs();
    let mut vals = vec![al.abs(), ah.abs()];
    if zero_in {
        vals.push(z);
    }
    check!(hull(&r, &vals, ld, ld), "abs is the exact range of absolute values");
    check!(a.clone().into_abs().is_same(&r), "into_abs");
    let mut c = a.clone();
    c.abs_assign();
    check!(c.is_same(&r), "abs_assign");
}

macro_rules! forms {
    ($a:expr, $b:expr, $lo:expr, $hi:expr, $ld:expr, $what:expr) => {{
        let (a, b) = (&$a, &$b);
        let ok = |d: &D| d.log2_denom() == $ld && *d.lower_bound_numer() == $lo && *d.upper_bound_numer() == $hi;
        check!(ok(&(a * b)), "{} (&,&)", $what);
        check!(ok(&(a * b.clone())), "{} (&,own)", $what);
        check!(ok(&(a.clone() * b)), "{} (own,&)", $what);
        check!(ok(&(a.clone() * b.clone())), "{} (own,own)", $what);
        let mut r = a.clone();
        r *= b;
        check!(ok(&r), "{} (assign &)", $what);
        let mut r = a.clone();
        r *= b.clone();
        check!(ok(&r), "{} (assign own)", $what);
    }};
}

fn scalar_int() {
    let (a, al, ah, ld) = ival_fine("a");
    let b = any("b");
    let (x, y) = (&al * &b, &ah * &b);
    let (l, u) = if b.is_negative() { (y, x) } else { (x, y) };
    forms!(a, b, l, u, ld, "interval * BigInt");
    let w = any_uint("u");
    let v = BigInt::from(w.clone());
    let (l, u) = (&al * &v, &ah * &v);
    forms!(a, w, l, u, ld, "interval * BigUint");
}

macro_rules! prim {
    ($a:expr, $al:expr, $ah:expr, $ld:expr, $k:expr, $t:ty) => {{
        let vals: [$t; 6] = [<$t>::MIN, <$t>::MAX, 0, 1, <$t>::MAX / 3, (0 as $t).wrapping_sub(3)];
        let v = vals[$k];
        let b = BigInt::from(v);
        let (x, y) = (&$al * &b, &$ah * &b);
        let (l, u) = if b.is_negative() { (y, x) } else { (x, y) };
        forms!($a, v, l, u, $ld, concat!("interval * ", stringify!($t)));
        let r = Ratio::new(v, 2 as $t);
        let big = Ratio::new(BigInt::from(v), BigInt::from(2));
        let e = &$a * &big;
        check!((&$a * r).is_same(&e), concat!("interval * Ratio<", stringify!($t), ">"));
        check!((&$a * &r).is_same(&e), concat!("interval * &Ratio<", stringify!($t), ">"));
        let mut c = $a.clone();
        c *= r;
        check!(c.is_same(&e), concat!("interval *= Ratio<", stringify!($t), ">"));
    }};
}

fn scalar_prim() {
    let (a, al, ah, ld) = ival_fine("a");
    let k = choose("k", 6);
    prim!(a, al, ah, ld, k, u8);
    prim!(a, al, ah, ld, k, u16);
    prim!(a, al, ah, ld, k, u32);
    prim!(a, al, ah, ld, k, u64);
    prim!(a, al, ah, ld, k, u128);
    prim!(a, al, ah, ld, k, usize);
    prim!(a, al, ah, ld, k, i8);
    prim!(a, al, ah, ld, k, i16);
    prim!(a, al, ah, ld, k, i32);
    prim!(a, al, ah, ld, k, i64);
    prim!(a, al, ah, ld, k, i128);
    prim!(a, al, ah, ld, k, isize);
}

fn scalar_ratio() {
    let ld = choose("ld", 2);
    let al = any("al");
    let ah = any("ah");
    assume(al <= ah);
    let a = D::new(al.clone(), ah.clone(), ld);
    let n = any("n");
    let d = 1 + choose("d", q(5, 9));
    let rat = Ratio::new(n.clone(), BigInt::from(d));
    let db = BigInt::from(d);
    let r = &a * &rat;
    let (x, y) = (&al * &n, &ah * &n);
    let (lo, hi) = if n.is_negative() { (y, x) } else { (x, y) };
    check!(r.log2_denom() == ld, "interval * Ratio keeps the denominator");
    check!(is_floor(r.lower_bound_numer(), &lo, &db), "interval * Ratio lower bound");
    check!(is_ceil(r.upper_bound_numer(), &hi, &db), "interval * Ratio upper bound");
    check!((&a * rat.clone()).is_same(&r), "(&,own)");
    check!((a.clone() * &rat).is_same(&r), "(own,&)");
    check!((a.clone() * rat.clone()).is_same(&r), "(own,own)");
    let mut c = a.clone();
    c *= &rat;
    check!(c.is_same(&r), "*= &Ratio");
    let mut c = a.clone();
    c *= rat;
    check!(c.is_same(&r), "*= Ratio");
}

fn main() {
    main_(&[
        h("mul", mul),
        h("mul_fine", mul_fine),
        h("mul_points", mul_points),
        h("square_abs", square_abs).covers(&["contains zero"]),
        h("scalar_int", scalar_int),
        h("scalar_prim", scalar_prim),
        h("scalar_ratio", scalar_ratio),
    ])
}
