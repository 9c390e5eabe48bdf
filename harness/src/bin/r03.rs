//! Sums, differences and negation of real algebraic numbers.
//! crate: full
//! encodes: Add, AddAssign, Sub, SubAssign, Neg for RealAlgebraicNumber (all reference forms), RootSelector::select_root, IntervalShrinker::shrink, sign_changes_at, resultants of nested polynomials, factoring, Sturm sequences, interval addition
//! outside: pairs other than those of a number with a quadratic (coefficients up to 3; thorough 6, leading 4) or cubic (up to 2, leading 1; thorough 3, leading 2) minimal polynomial with its conjugates and 8 listed ones (cubic in quick: 3) or, for a quadratic, any of X^2 + bX + c with b, c up to 2 (thorough: leading coefficient up to 2), and those of 26 listed numbers (degree up to 4; the first with each isolating interval of up to 1 bit and 1 unit further out than the tightest, thorough: 2 bits, 3 units, and the second 1 bit, 1 unit); sums of irrational numbers with any other rational
#[path = "../ran.rs"]
#[allow(dead_code)]
mod ran;
use ran::*;
use verif_harness::*;

fn pair() -> (N, N, R, R) {
    let a = NUMS[choose("a", NUMS.len())].clone();
    let b = NUMS[choose("b", NUMS.len())].clone();
    let x = if thorough() { a.each_interval("x", 2, 3) } else { a.each_interval("x", 1, 1) };
    let y = if thorough() { b.each_interval("y", 1, 1) } else { b.real() };
    (a, b, x, y)
}
fn add() {
    let (a, b, x, y) = pair();
    let s = &x + &y;
    check!(is_value(&s, &a.e().add(&b.e()), a.deg() * b.deg()), "sum");
    if a.deg() * b.deg() > 1 && s.is_rational() {
        cover("irrational numbers with a rational sum");
    }
}
fn sub() {
    let (a, b, x, y) = pair();
    let s = &x - &y;
    check!(is_value(&s, &a.e().sub(&b.e()), a.deg() * b.deg()), "difference");
}
fn forms() {
    let few = [3, 5, 7, 9, 17];
    let a = NUMS[few[choose("a", 5)]].clone();
    let b = NUMS[few[choose("b", 5)]].clone();
    let (x, y) = (a.real(), b.real());
    let (s, d) = (a.e().add(&b.e()), a.e().sub(&b.e()));
    let deg = a.deg() * b.deg();
    let mut t = x.clone();
    t += &y;
    let mut u = x.clone();
    u += y.clone();
    for r in [x.clone() + y.clone(), x.clone() + &y, &x + y.clone(), t, u] {
        check!(is_value(&r, &s, deg), "sum forms");
    }
    let mut t = x.clone();
    t -= &y;
    let mut u = x.clone();
    u -= y.clone();
    for r in [x.clone() - y.clone(), x.clone() - &y, &x - y.clone(), t, u] {
        check!(is_value(&r, &d, deg), "difference forms");
    }
}
fn neg() {
    let a = NUMS[choose("a", NUMS.len())].clone();
    let x = a.real();
    check!(is_value(&-&x, &a.e().neg(), a.deg()), "negation");
    check!(is_value(&-x, &a.e().neg(), a.deg()), "negation, owned");
}
/// small quadratic and cubic numbers with each other, their conjugates and listed ones
fn small_numbers() {
    let (a, b, x, y) = small_pair();
    check!(is_value(&(&x + &y), &a.e().add(&b.e()), a.deg() * b.deg()), "sum");
    check!(is_value(&(&x - &y), &a.e().sub(&b.e()), a.deg() * b.deg()), "difference");
}

fn main() {
    main_(&[h("add", add).covers(&["irrational numbers with a rational sum"]), h("sub", sub), h("forms", forms), h("neg", neg), h("small_numbers", small_numbers)]);
}
