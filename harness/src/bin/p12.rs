//! The coefficient rings under every polynomial, through the public trait.
//! encodes: PolynomialCoefficient for BigInt, Ratio<BigInt>, ModularInteger<BigInt, BigInt>, Polynomial<BigInt>: all methods (defaults included); PolynomialCoefficientAbsSupported; DivisorIsOne
//! outside: ratio denominators above 4; moduli above 6; exponents above 9 (ratios: above 2 for numerators outside -6..6); multipliers above 5; inner polynomials of more than 3 coefficients; the machine integer instances (the same macro as BigInt); numbers modulo 1
use algebraics::polynomial::{DivisorIsOne, PolynomialCoefficient, PolynomialCoefficientAbsSupported};
use algebraics::traits::{ExactDiv, ExactDivAssign, GCD};
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use std::borrow::Cow;
use verif_harness::spec::*;
use verif_harness::*;

/// an instance: `zero`, `one` of the ring, and the multiple and power of a value by repeated
/// addition and multiplication of integers (the oracle of each type)
fn laws<T: PolynomialCoefficient>(exponents: usize, c: T, zero: T, one: T, neg: T, times: &dyn Fn(usize) -> T, power: &dyn Fn(usize) -> T) {
    let (e, d) = T::coefficient_to_element(Cow::Borrowed(&c));
    let (e2, d2) = T::coefficient_to_element(Cow::Owned(c.clone()));
    check!(e == e2 && d == d2, "coefficient_to_element of borrowed and owned values");
    check!(T::make_coefficient(Cow::Borrowed(&e), Cow::Borrowed(&d)) == c, "element over divisor is the coefficient");
    check!(T::make_coefficient(Cow::Owned(e.clone()), Cow::Owned(d.clone())) == c, "element over divisor is the coefficient");
    check!(T::is_coefficient_zero(&c) == (c == zero), "is_coefficient_zero");
    check!(T::is_coefficient_one(&c) == (c == one), "is_coefficient_one");
    check!(T::is_element_zero(&e) == (c == zero), "is_element_zero");
    let (e0, d0) = T::coefficient_to_element(Cow::Borrowed(&zero));
    let (e1, d1) = T::coefficient_to_element(Cow::Borrowed(&one));
    check!(d0.is_one() && d1.is_one(), "zero and one have divisor one");
    check!(T::is_element_one(&e) == (e == e1), "is_element_one");
    check!(T::is_element_one(&e1) && !T::is_element_zero(&e1) && T::is_element_zero(&e0), "elements of zero and one");
    let mut x = e.clone();
    T::set_element_zero(&mut x);
    check!(x == e0, "set_element_zero");
    let mut x = e.clone();
    T::set_element_one(&mut x);
    check!(x == e1, "set_element_one");
    let mut x = c.clone();
    T::set_coefficient_zero(&mut x);
    check!(x == zero, "set_coefficient_zero");
    let mut x = c.clone();
    T::set_coefficient_one(&mut x);
    check!(x == one, "set_coefficient_one");
    for owned in 0..2 {
        let ec = || if owned == 0 { Cow::Borrowed(&e) } else { Cow::Owned(e.clone()) };
        let cc = || if owned == 0 { Cow::Borrowed(&c) } else { Cow::Owned(c.clone()) };
        check!(T::make_zero_element(ec()) == e0, "make_zero_element");
        check!(T::make_one_element(ec()) == e1, "make_one_element");
        check!(T::make_zero_coefficient_from_element(ec()) == zero, "make_zero_coefficient_from_element");
        check!(T::make_one_coefficient_from_element(ec()) == one, "make_one_coefficient_from_element");
        check!(T::make_zero_coefficient_from_coefficient(cc()) == zero, "make_zero_coefficient_from_coefficient");
        check!(T::make_one_coefficient_from_coefficient(cc()) == one, "make_one_coefficient_from_coefficient");
    }
    let mut x = e.clone();
    T::negate_element(&mut x);
    check!(T::make_coefficient(Cow::Owned(x), Cow::Borrowed(&d)) == neg, "negate_element");
    let k = choose("k", 6);
    let want = times(k);
    let x = T::mul_element_by_usize(Cow::Borrowed(&e), k);
    check!(T::make_coefficient(Cow::Owned(x), Cow::Borrowed(&d)) == want, "mul_element_by_usize");
    let x = T::mul_element_by_usize(Cow::Owned(e.clone()), k);
    check!(T::make_coefficient(Cow::Owned(x), Cow::Borrowed(&d)) == want, "mul_element_by_usize");
    let mut x = e.clone();
    T::mul_assign_element_by_usize(&mut x, k);
    check!(T::make_coefficient(Cow::Owned(x), Cow::Borrowed(&d)) == want, "mul_assign_element_by_usize");
    // the divisor as an element: divisor * coefficient has the elements of the coefficient
    let de = T::divisor_to_element(Cow::Borrowed(&d), Cow::Borrowed(&e));
    let dc = T::make_coefficient(Cow::Borrowed(&de), Cow::Owned(One::one()));
    check!(c.clone() * dc == T::make_coefficient(Cow::Borrowed(&e), Cow::Owned(One::one())), "divisor_to_element");
    check!(T::divisor_to_element(Cow::Owned(d.clone()), Cow::Owned(e.clone())) == de, "divisor_to_element");
    let n = if k < 2 { choose("n", exponents) } else { 2 };
    let want = power(n);
    check!(T::coefficient_pow_usize(c.clone(), n) == want, "coefficient_pow_usize");
    let pe = T::element_pow_usize(e.clone(), n);
    let pd = T::divisor_pow_usize(d.clone(), n);
    check!(T::make_coefficient(Cow::Owned(pe), Cow::Owned(pd)) == want, "element and divisor powers");
}

fn ipow(a: &BigInt, n: usize) -> BigInt {
    let mut r = bi(1);
    for _ in 0..n {
        r *= a;
    }
    r
}

fn integers() {
    let a = any("a");
    laws(10, a.clone(), bi(0), bi(1), -&a, &|k| &a * bi(k as i64), &|n| ipow(&a, n));
    let abs = <BigInt as PolynomialCoefficientAbsSupported>::coefficient_abs(a.clone());
    check!(!abs.is_negative() && (abs == a || abs == -&a), "coefficient_abs");
    check!(<BigInt as PolynomialCoefficient>::NESTING_DEPTH == 0, "nesting depth of the integers");
}
fn ratios() {
    ratio(3, any("a"))
}
fn ratio_powers() {
    ratio(10, bi(choose("a", 13) as i64 - 6))
}
fn ratio(exponents: usize, a: BigInt) {
    let d = bi(1 + choose("d", 4) as i64);
    let r = |n: BigInt, d: BigInt| Ratio::new(n, d);
    let c = r(a.clone(), d.clone());
    laws(
        exponents,
        c.clone(),
        r(bi(0), bi(1)),
        r(bi(1), bi(1)),
        r(-&a, d.clone()),
        &|k| r(&a * bi(k as i64), d.clone()),
        &|n| r(ipow(c.numer(), n), ipow(c.denom(), n)),
    );
    let abs = <Ratio<BigInt> as PolynomialCoefficientAbsSupported>::coefficient_abs(c.clone());
    check!(!abs.numer().is_negative() && (abs == c || abs == -c), "coefficient_abs");
}
fn modular() {
    let m = bi(2 + choose("m", 5) as i64);
    let a = any("a");
    assume(a >= bi(0) && a < m);
    laws(
        10,
        mi(&a, &m),
        mi(&bi(0), &m),
        mi(&bi(1), &m),
        mi(&(-&a).mod_floor(&m), &m),
        &|k| mi(&(&a * bi(k as i64)).mod_floor(&m), &m),
        &|n| mi(&ipow(&a, n).mod_floor(&m), &m),
    );
}
fn polynomials() {
    let (a, p) = any_zp("a", choose("len", 4));
    laws(
        10,
        p,
        zp(&[]),
        zp(&[bi(1)]),
        zp(&vscale(&a, &bi(-1))),
        &|k| zp(&vscale(&a, &bi(k as i64))),
        &|n| {
            assume(n > 0 || !a.is_empty()); // 0^0 of a polynomial is refused
            let mut r = vec![bi(1)];
            for _ in 0..n {
                r = vmul(&r, &a);
            }
            zp(&r)
        },
    );
    check!(<ZP as PolynomialCoefficient>::NESTING_DEPTH == 1, "nesting depth of polynomials");
    check!(<algebraics::polynomial::Polynomial<ZP> as PolynomialCoefficient>::NESTING_DEPTH == 2, "nesting depth of polynomials");
}
/// lists: a common divisor, the least one, for every list
fn ratio_lists() {
    type Q = Ratio<BigInt>;
    let n = choose("n", 4);
    let mut v = vec![];
    for i in 0..n {
        v.push(any_ratio(&format!("a{}", i), 3).2);
    }
    let (e, d) = Q::coefficients_to_elements(Cow::Borrowed(&v[..]));
    check!(Q::coefficients_to_elements(Cow::Owned(v.clone())) == (e.clone(), d.clone()), "owned and borrowed lists");
    check!(e.len() == n && d.is_positive(), "as many elements as coefficients");
    let mut l = bi(1);
    for r in &v {
        l = Integer::lcm(&l, r.denom());
    }
    check!(d == l, "least common divisor");
    for i in 0..n {
        check!(&e[i] * v[i].denom() == v[i].numer() * &d, "element over divisor is the coefficient");
        check!(Q::make_coefficient(Cow::Borrowed(&e[i]), Cow::Borrowed(&d)) == v[i], "element over divisor is the coefficient");
    }
    let p = Q::from_iterator(v.clone().into_iter());
    check!(p == QP::from(v), "from_iterator");
}
fn ratio_reduce() {
    type Q = Ratio<BigInt>;
    let n = choose("n", 4);
    let v = any_vec("a", n);
    let d = bi(1 + choose("d", 6) as i64);
    let (mut e, mut q) = (v.clone(), d.clone());
    Q::reduce_divisor(&mut e, &mut q);
    check!(Q::get_reduced_divisor(&v, &d) == (e.clone(), q.clone()), "get_reduced_divisor agrees with reduce_divisor");
    check!(q.is_positive() && e.len() == n, "divisor stays positive");
    let mut g = q.clone();
    for x in &e {
        g = Integer::gcd(&g, x);
    }
    check!(g.is_one(), "nothing in common is left");
    for i in 0..n {
        check!(&e[i] * &d == &v[i] * &q, "values are kept");
    }
}
fn plain_lists() {
    let n = choose("n", 4);
    let v = any_vec("a", n);
    check!(BigInt::coefficients_to_elements(Cow::Borrowed(&v[..])) == (v.clone(), DivisorIsOne), "integers are their elements");
    check!(BigInt::get_reduced_divisor(&v, &DivisorIsOne) == (v.clone(), DivisorIsOne), "nothing to reduce");
    let mut e = v.clone();
    BigInt::reduce_divisor(&mut e, &mut DivisorIsOne);
    check!(e == v, "nothing to reduce");
    let ps: Vec<ZP> = v.iter().map(|c| zp(&[c.clone(), bi(2)])).collect();
    check!(ZP::coefficients_to_elements(Cow::Borrowed(&ps[..])) == (ps.clone(), DivisorIsOne), "polynomials are their elements");
    check!(ZP::get_reduced_divisor(&ps, &DivisorIsOne) == (ps.clone(), DivisorIsOne), "nothing to reduce");
    let m = bi(2 + choose("m", 4) as i64);
    let ms: Vec<MI> = v.iter().map(|c| mi(&c.mod_floor(&m), &m)).collect();
    check!(MI::coefficients_to_elements(Cow::Borrowed(&ms[..])) == (ms.clone(), DivisorIsOne), "residues are their elements");
    check!(MI::get_reduced_divisor(&ms, &DivisorIsOne) == (ms.clone(), DivisorIsOne), "nothing to reduce");
    let one = DivisorIsOne;
    check!(one * one == one && one.is_one() && one.exact_div(one) == one && one.checked_exact_div(one) == Some(one), "the divisor one");
    let mut x = one;
    check!(x.checked_exact_div_assign(one).is_ok() && x.gcd(&one) == one && x.lcm(&one) == one, "the divisor one");
}

fn main() {
    main_(&[
        h("integers", integers),
        h("ratios", ratios),
        h("ratio_powers", ratio_powers),
        h("modular", modular),
        h("polynomials", polynomials),
        h("ratio_lists", ratio_lists),
        h("ratio_reduce", ratio_reduce),
        h("plain_lists", plain_lists),
    ])
}
