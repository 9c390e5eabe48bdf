//! Interval addition, subtraction and negation: exact, in every operator form.
//! encodes: DyadicFractionInterval::{new, neg, do_op_assign, do_add_assign, do_sub_assign, from_ratio, log2_denom, lower_bound_numer, upper_bound_numer}
//! encodes: Add/AddAssign/Sub/SubAssign<DyadicFractionInterval | BigInt | BigUint | u8..i128 | Ratio<_>> for DyadicFractionInterval (owned, borrowed and assigning forms)
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use verif_harness::spec::*;
use verif_harness::*;

fn max_ld() -> usize {
    if thorough() {
        9
    } else {
        4
    }
}

fn ival(n: &str) -> (D, BigInt, BigInt, usize) {
    let lo = any(&format!("{}_lo", n));
    let hi = any(&format!("{}_hi", n));
    let ld = precision(&format!("{}_ld", n), max_ld(), &[32, 64, 130]);
    assume(lo <= hi);
    (D::new(lo.clone(), hi.clone(), ld), lo, hi, ld)
}

fn is(d: &D, lo: &BigInt, hi: &BigInt, ld: usize) -> bool {
    d.log2_denom() == ld && d.lower_bound_numer() == lo && d.upper_bound_numer() == hi
}

macro_rules! forms {
    ($a:expr, $b:expr, $op:tt, $opa:tt, $lo:expr, $hi:expr, $ld:expr, $what:expr) => {{
        let (a, b) = (&$a, &$b);
        let r = a $op b;
        check!(is(&r, &$lo, &$hi, $ld), "{} (&,&)", $what);
        let r = a $op b.clone();
        check!(is(&r, &$lo, &$hi, $ld), "{} (&,own)", $what);
        let r = a.clone() $op b;
        check!(is(&r, &$lo, &$hi, $ld), "{} (own,&)", $what);
        let r = a.clone() $op b.clone();
        check!(is(&r, &$lo, &$hi, $ld), "{} (own,own)", $what);
        let mut r = a.clone();
        r $opa b;
        check!(is(&r, &$lo, &$hi, $ld), "{} (assign &)", $what);
        let mut r = a.clone();
        r $opa b.clone();
        check!(is(&r, &$lo, &$hi, $ld), "{} (assign own)", $what);
    }};
}

fn add_sub() {
    let (a, al, ah, ald) = ival("a");
    let (b, bl, bh, bld) = ival("b");
    let ld = ald.max(bld);
    if ald < bld {
        cover("a coarser")
    }
    if ald > bld {
        cover("b coarser")
    }
    let (al, ah) = (al << (ld - ald), ah << (ld - ald));
    let (bl, bh) = (bl << (ld - bld), bh << (ld - bld));
    let (sl, sh) = (&al + &bl, &ah + &bh);
    forms!(a, b, +, +=, sl, sh, ld, "a + b is the exact sum");
    let (dl, dh) = (&al - &bh, &ah - &bl);
    forms!(a, b, -, -=, dl, dh, ld, "a - b is the exact difference");
}

fn neg() {
    let (a, al, ah, ald) = ival("a");
    let (nl, nh) = (-&ah, -&al);
    check!(is(&-&a, &nl, &nh, ald), "-&a");
    check!(is(&-a, &nl, &nh, ald), "-a");
}

fn scalar_int() {
    let (a, al, ah, ald) = ival("a");
    let b = any("b");
    let (sl, sh) = (&al + (&b << ald), &ah + (&b << ald));
    forms!(a, b, +, +=, sl, sh, ald, "interval + BigInt");
    let (dl, dh) = (&al - (&b << ald), &ah - (&b << ald));
    forms!(a, b, -, -=, dl, dh, ald, "interval - BigInt");
    let u = any_uint("u");
    let ub = BigInt::from(u.clone()) << ald;
    let (sl, sh) = (&al + &ub, &ah + &ub);
    forms!(a, u, +, +=, sl, sh, ald, "interval + BigUint");
    let (dl, dh) = (&al - &ub, &ah - &ub);
    forms!(a, u, -, -=, dl, dh, ald, "interval - BigUint");
}

macro_rules! prim {
    ($a:expr, $al:expr, $ah:expr, $ald:expr, $k:expr, $t:ty) => {{
        let vals: [$t; 5] = [<$t>::MIN, <$t>::MAX, 0, 1, <$t>::MAX / 3];
        let v = vals[$k];
        let b = BigInt::from(v) << $ald;
        let (sl, sh) = (&$al + &b, &$ah + &b);
        forms!($a, v, +, +=, sl, sh, $ald, concat!("interval + ", stringify!($t)));
        let (dl, dh) = (&$al - &b, &$ah - &b);
        forms!($a, v, -, -=, dl, dh, $ald, concat!("interval - ", stringify!($t)));
        // ratio of primitives with a power-of-two denominator that divides exactly
        if $ald >= 2 {
            let r = Ratio::new(v, 4 as $t);
            let b = BigInt::from(v) << ($ald - 2);
            let (sl, sh) = (&$al + &b, &$ah + &b);
            forms!($a, r, +, +=, sl, sh, $ald, concat!("interval + Ratio<", stringify!($t), ">"));
            let (dl, dh) = (&$al - &b, &$ah - &b);
            forms!($a, r, -, -=, dl, dh, $ald, concat!("interval - Ratio<", stringify!($t), ">"));
        }
    }};
}

fn scalar_prim() {
    let (a, al, ah, ald) = ival("a");
    let k = choose("k", 5);
    prim!(a, al, ah, ald, k, u8);
    prim!(a, al, ah, ald, k, u16);
    prim!(a, al, ah, ald, k, u32);
    prim!(a, al, ah, ald, k, u64);
    prim!(a, al, ah, ald, k, u128);
    prim!(a, al, ah, ald, k, usize);
    prim!(a, al, ah, ald, k, i8);
    prim!(a, al, ah, ald, k, i16);
    prim!(a, al, ah, ald, k, i32);
    prim!(a, al, ah, ald, k, i64);
    prim!(a, al, ah, ald, k, i128);
    prim!(a, al, ah, ald, k, isize);
}

/// tightest enclosure of [al, ah]/2^ald + s * n/d
fn tight(r: &D, al: &BigInt, ah: &BigInt, ald: usize, n: &BigInt, d: &BigInt) -> bool {
    r.log2_denom() == ald
        && is_floor(r.lower_bound_numer(), &(al * d + (n << ald)), d)
        && is_ceil(r.upper_bound_numer(), &(ah * d + (n << ald)), d)
}

fn scalar_ratio() {
    let (a, al, ah, ald) = ival("a");
    let (n, d, q) = any_ratio("q", if thorough() { 9 } else { 5 });
    macro_rules! f {
        ($e:expr, $n:expr, $m:expr) => {
            check!(tight(&$e, &al, &ah, ald, $n, &d), $m)
        };
    }
    let nn = -&n;
    f!(&a + &q, &n, "interval + Ratio (&,&)");
    f!(&a + q.clone(), &n, "interval + Ratio (&,own)");
    f!(a.clone() + &q, &n, "interval + Ratio (own,&)");
    f!(a.clone() + q.clone(), &n, "interval + Ratio");
    f!(&a - &q, &nn, "interval - Ratio (&,&)");
    f!(&a - q.clone(), &nn, "interval - Ratio (&,own)");
    f!(a.clone() - &q, &nn, "interval - Ratio (own,&)");
    f!(a.clone() - q.clone(), &nn, "interval - Ratio");
    let mut r = a.clone();
    r += &q;
    f!(r, &n, "interval += &Ratio");
    let mut r = a.clone();
    r += q.clone();
    f!(r, &n, "interval += Ratio");
    let mut r = a.clone();
    r -= &q;
    f!(r, &nn, "interval -= &Ratio");
    let mut r = a.clone();
    r -= q.clone();
    f!(r, &nn, "interval -= Ratio");
}

fn main() {
    main_(&[
        h("add_sub", add_sub).covers(&["a coarser", "b coarser"]),
        h("neg", neg),
        h("scalar_int", scalar_int),
        h("scalar_prim", scalar_prim),
        h("scalar_ratio", scalar_ratio),
    ])
}
