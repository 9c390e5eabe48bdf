//! Order and equality of real algebraic numbers.
//! crate: full
//! encodes: PartialEq, Eq, PartialOrd, Ord for RealAlgebraicNumber; abs_sub; subtraction, cmp_with_zero, is_zero and everything they use; PartialEq and Hash for RealAlgebraicNumberData
//! outside: numbers other than those with a quadratic (coefficients up to 3; thorough 6, leading 4) or cubic (up to 2, leading 1; thorough 3, leading 2) minimal polynomial against their conjugates and 8 listed ones (cubic in quick: 3) or, for a quadratic, any of X^2 + bX + c with b, c up to 2 (thorough: leading coefficient up to 2), and 26 listed ones (degree up to 4), the first with each isolating interval of up to 1 bit and 1 unit further out than the tightest (thorough: both, the first 2 bits, 3 units), and a list of close pairs
#[path = "../ran.rs"]
#[allow(dead_code)]
mod ran;
use num_traits::{Signed, Zero};
use ran::*;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use verif_harness::spec::*;
use verif_harness::*;

/// the order of two numbers: equal precisely when they are the same root of the same polynomial
fn order(a: &N, b: &N) -> Ordering {
    let (x, y) = (a.e(), b.e());
    if a.poly == b.poly && x.overlaps(&y) {
        return Ordering::Equal;
    }
    assert!(!x.overlaps(&y), "numbers too close for the enclosures");
    x.lo.cmp(&y.lo)
}
fn spec(x: &R, y: &R, o: Ordering) {
    check!(x.cmp(y) == o, "cmp");
    check!(y.cmp(x) == o.reverse(), "cmp reversed");
    check!(x.partial_cmp(y) == Some(o), "partial_cmp");
    check!((x == y) == (o == Ordering::Equal) && (x != y) == (o != Ordering::Equal), "equality");
    check!((x < y) == (o == Ordering::Less) && (x > y) == (o == Ordering::Greater), "strict order");
    check!((x <= y) == (o != Ordering::Greater) && (x >= y) == (o != Ordering::Less), "order");
}
fn compare() {
    let a = NUMS[choose("a", NUMS.len())].clone();
    let b = NUMS[choose("b", NUMS.len())].clone();
    let x = if thorough() { a.each_interval("x", 2, 3) } else { a.each_interval("x", 1, 1) };
    let y = if thorough() { b.each_interval("y", 1, 1) } else { b.real() };
    spec(&x, &y, order(&a, &b));
}
/// the same number with any two isolating intervals
fn same() {
    let a = NUMS[choose("a", NUMS.len())].clone();
    let (k, s) = if thorough() { (3, 5) } else { (2, 3) };
    let x = a.each_interval("x", k, s);
    let y = a.each_interval("y", 1, 1);
    check!(x == y && x.cmp(&y) == Ordering::Equal, "equal whatever the interval");
    let d = x.data().clone();
    let same = x.interval().is_same(y.interval());
    check!((&d == y.data()) == same, "data is equal precisely when the interval is the same");
    if same {
        let hash = |v: &algebraics::algebraic_numbers::RealAlgebraicNumberData| {
            let mut h = DefaultHasher::new();
            v.hash(&mut h);
            h.finish()
        };
        check!(hash(&d) == hash(y.data()), "equal data has an equal hash");
    }
}
/// different numbers that agree to many digits
fn close() {
    // sqrt(2) and the convergents of its continued fraction
    let conv: [(i64, i64); 6] = [(3, 2), (7, 5), (41, 29), (99, 70), (8119, 5741), (6625109, 4684659)];
    let (p, q) = conv[choose("c", 6)];
    let s = NUMS[5].each_interval("s", 1, 1);
    let r = R::from(Ratio::new(bi(p), bi(q)));
    let o = if p * p > 2 * q * q { Ordering::Less } else { Ordering::Greater };
    spec(&s, &r, o);
    // sqrt(1000003) against integers around it
    let t = NUMS[15].real();
    let n = bi(choose("n", 5) as i64 + 998);
    spec(&t, &R::from(n.clone()), bi(1000003).cmp(&(&n * &n)));
}
fn abs_sub() {
    let few = [0usize, 1, 2, 3, 4, 5, 6, 9, 10, 17, 18];
    let a = NUMS[few[choose("a", few.len())]].clone();
    let b = NUMS[few[choose("b", few.len())]].clone();
    let r = a.real().abs_sub(&b.real());
    if order(&a, &b) == Ordering::Greater {
        check!(is_value(&r, &a.e().sub(&b.e()), a.deg() * b.deg()), "abs_sub is the difference");
    } else {
        check!(r.is_zero() && r.to_integer() == Some(bi(0)), "abs_sub is zero");
    }
}
/// sorting and extrema follow the order
fn sort() {
    let mut v: Vec<usize> = (0..4).map(|i| [0usize, 3, 5, 6, 9, 10, 17][choose(&format!("i{}", i), 7)]).collect();
    assume(v[0] <= v[1] && v[2] <= v[3]);
    let mut r: Vec<R> = v.iter().map(|&i| NUMS[i].real()).collect();
    r.sort();
    v.sort_by(|&i, &j| order(&NUMS[i], &NUMS[j]));
    for (r, i) in r.iter().zip(v) {
        check!(is_value(r, &NUMS[i].e(), NUMS[i].deg()), "sorted");
    }
}
/// small quadratic and cubic numbers with each other, their conjugates and listed ones
fn small_numbers() {
    let (a, b, x, y) = small_pair();
    spec(&x, &y, order(&a, &b));
}

fn main() {
    main_(&[h("compare", compare), h("same", same), h("close", close), h("abs_sub", abs_sub), h("small_numbers", small_numbers), h("sort", sort).thorough()]);
}
