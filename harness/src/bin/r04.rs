//! Products, reciprocals, quotients and remainders of real algebraic numbers.
//! crate: full
//! encodes: Mul, MulAssign, Div, DivAssign, ExactDiv, ExactDivAssign, Rem, RemAssign for RealAlgebraicNumber (all reference forms), checked_recip, recip, remove_zero_from_interval, RootSelector::select_root, IntervalShrinker::shrink, resultants of nested polynomials, factoring, Sturm sequences, interval multiplication and reciprocal
//! outside: pairs other than those of a number with a quadratic (coefficients up to 3; thorough 6, leading 4) or cubic (up to 2, leading 1; thorough 3, leading 2) minimal polynomial with its conjugates and 8 listed ones (cubic in quick: 3) or, for a quadratic, any of X^2 + bX + c with b, c up to 2 (thorough: leading coefficient up to 2), and those of 26 listed numbers (degree up to 4; the first with each isolating interval of up to 1 bit and 1 unit further out than the tightest, thorough: 2 bits, 3 units, and the second 1 bit, 1 unit); remainders: 12 of them
#[path = "../ran.rs"]
#[allow(dead_code)]
mod ran;
use algebraics::traits::{ExactDiv, ExactDivAssign};
use num_traits::Zero;
use ran::*;
use verif_harness::spec::*;
use verif_harness::*;

fn pair() -> (N, N, R, R) {
    let a = NUMS[choose("a", NUMS.len())].clone();
    let b = NUMS[choose("b", NUMS.len())].clone();
    let x = if thorough() { a.each_interval("x", 2, 3) } else { a.each_interval("x", 1, 1) };
    let y = if thorough() { b.each_interval("y", 1, 1) } else { b.real() };
    (a, b, x, y)
}
fn mul() {
    let (a, b, x, y) = pair();
    let s = &x * &y;
    check!(is_value(&s, &a.e().mul(&b.e()), a.deg() * b.deg()), "product");
    if a.deg() > 1 && b.deg() > 1 && s.is_rational() {
        cover("irrational numbers with a rational product");
    }
}
fn div() {
    let (a, b, x, y) = pair();
    let q = x.checked_exact_div(&y);
    if b.e().sign() == 0 {
        check!(q.is_none(), "division by zero is refused");
        return;
    }
    check!(is_value(&q.unwrap(), &a.e().mul(&b.e().recip()), a.deg() * b.deg()), "quotient");
}
fn recip() {
    let a = NUMS[choose("a", NUMS.len())].clone();
    let x = if thorough() { a.each_interval("x", 6, 30) } else { a.each_interval("x", 4, 10) };
    if a.e().sign() == 0 {
        check!(x.checked_recip().is_none(), "no reciprocal of zero");
        check!(panics(|| {
            let _ = x.recip();
        }), "recip of zero panics");
        return;
    }
    let e = a.e().recip();
    check!(is_value(&x.checked_recip().unwrap(), &e, a.deg()), "checked_recip");
    check!(is_value(&x.recip(), &e, a.deg()), "recip");
}
fn forms() {
    let few = [3, 5, 7, 9, 17];
    let a = NUMS[few[choose("a", 5)]].clone();
    let b = NUMS[few[choose("b", 5)]].clone();
    let (x, y) = (a.real(), b.real());
    let (m, d) = (a.e().mul(&b.e()), a.e().mul(&b.e().recip()));
    let deg = a.deg() * b.deg();
    let mut t = x.clone();
    t *= &y;
    let mut u = x.clone();
    u *= y.clone();
    for r in [x.clone() * y.clone(), x.clone() * &y, &x * y.clone(), t, u] {
        check!(is_value(&r, &m, deg), "product forms");
    }
    let mut t = x.clone();
    t /= &y;
    let mut u = x.clone();
    u /= y.clone();
    let mut v = x.clone();
    v.exact_div_assign(&y);
    let mut w = x.clone();
    check!(w.checked_exact_div_assign(y.clone()).is_ok(), "checked_exact_div_assign");
    let e = (&x).checked_exact_div(y.clone()).unwrap();
    for r in [x.clone() / y.clone(), x.clone() / &y, &x / y.clone(), &x / &y, t, u, v, w, e, (&x).exact_div(&y)] {
        check!(is_value(&r, &d, deg), "quotient forms");
    }
    let mut z = x.clone();
    check!(z.checked_exact_div_assign(R::zero()).is_err(), "division by zero is an error");
    check!(is_value(&z, &a.e(), a.deg()), "and leaves the number");
    check!(panics(|| {
        let _ = &x / R::zero();
    }), "plain division by zero panics");
}
fn rem() {
    let few = [0, 1, 2, 3, 4, 5, 6, 8, 9, 13, 17, 20];
    let a = NUMS[few[choose("a", few.len())]].clone();
    let b = NUMS[few[1 + choose("b", few.len() - 1)]].clone();
    assume(a.deg() * b.deg() <= 6);
    let (x, y) = (a.real(), b.real());
    let q = a.e().mul(&b.e().recip());
    // an exact integer quotient is the only case in which the enclosure holds an integer
    let near: BigInt = (&q.lo + pow2(BITS - 1)) >> BITS;
    let exact = E::of_ratio(&near, &bi(1)).overlaps(&q);
    let t = if exact {
        near
    } else if q.sign() < 0 {
        q.ceil()
    } else {
        q.floor()
    };
    let e = a.e().sub(&E::of_ratio(&t, &bi(1)).mul(&b.e()));
    let r = &x % &y;
    check!(r.is_zero() == exact, "remainder is zero exactly for multiples");
    if !exact {
        check!(is_value(&r, &e, a.deg() * b.deg()), "remainder");
    }
    let mut t = x.clone();
    t %= &y;
    let mut u = x.clone();
    u %= y.clone();
    for s in [x.clone() % y.clone(), x.clone() % &y, &x % y.clone(), t, u] {
        check!(s.minimal_polynomial() == r.minimal_polynomial() && s.interval().is_same(r.interval()), "remainder forms");
    }
}
/// small quadratic and cubic numbers with each other, their conjugates and listed ones
fn small_numbers() {
    let (a, b, x, y) = small_pair();
    check!(is_value(&(&x * &y), &a.e().mul(&b.e()), a.deg() * b.deg()), "product");
    check!(is_value(&(&x / &y), &a.e().mul(&b.e().recip()), a.deg() * b.deg()), "quotient");
}

fn main() {
    main_(&[
        h("mul", mul).covers(&["irrational numbers with a rational product"]),
        h("div", div),
        h("recip", recip),
        h("forms", forms),
        h("rem", rem),
        h("small_numbers", small_numbers),
    ]);
}
