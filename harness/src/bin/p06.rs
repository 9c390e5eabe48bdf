//! Polynomial greatest common divisors over the rationals and prime fields.
//! encodes: GCD::{gcd, lcm, gcd_lcm}, ExtendedGCD::{extended_gcd, extended_gcd_lcm} for Polynomial<Ratio<BigInt>> and Polynomial<ModularInteger<BigInt, KnownPrime<BigInt>>>; subresultant_gcd, nonzero_reducing_factor, reduce_assign, to_reduced, into_reduced, pseudo_div_rem, div_rem, exact_div
//! outside: over the rationals, coefficients other than -2..2 (degree 1) and -1..1 (degree 3; -2..2 thorough) times a linear factor and a content, except for monic linear polynomials (any coefficients); common factors beyond linear ones other than 6 fixed ones of degree 2 and 3; (x - r)(x - s) against x - t with roots in -20..20; primes other than 2, 3, 5, 7 (11 with fixed common factors)
use algebraics::traits::{ExtendedGCD, ExtendedGCDAndLCM, ExtendedGCDResult, GCDAndLCM, GCD};
use num_traits::{One, Zero};
use verif_harness::spec::*;
use verif_harness::*;

fn small(name: &str, n: usize, r: i64) -> QP {
    let v = chosen_vec(name, n, -r, r);
    QP::from((v, bi(1)))
}

fn divides(d: &QP, p: &QP) -> bool {
    if d.is_zero() {
        p.is_zero()
    } else {
        (p % d).is_zero()
    }
}

fn gcd_spec(a: &QP, b: &QP) {
    let ExtendedGCDResult { gcd, x, y } = a.extended_gcd(b);
    check!(qp_normal(&gcd) && qp_normal(&x) && qp_normal(&y), "normal form");
    check!(&x * a + &y * b == gcd, "x * a + y * b == gcd");
    check!(gcd.is_zero() == (a.is_zero() && b.is_zero()), "gcd is zero only for zeros");
    if !gcd.is_zero() {
        check!(gcd.highest_power_coefficient().is_one(), "gcd is monic");
        if gcd.len() > 1 {
            cover("common factor")
        }
    }
    check!(divides(&gcd, a) && divides(&gcd, b), "gcd divides both");
    let g = a.gcd(b);
    check!(g == gcd, "gcd agrees with extended_gcd");
    let GCDAndLCM { gcd: g, lcm } = a.gcd_lcm(b);
    check!(g == gcd, "gcd_lcm agrees with extended_gcd");
    check!(&gcd * &lcm == a * b, "gcd * lcm == a * b");
    check!(a.lcm(b) == lcm, "lcm");
    let e = a.extended_gcd_lcm(b);
    check!(e == ExtendedGCDAndLCM { gcd, x, y, lcm }, "extended_gcd_lcm");
}

fn rational() {
    let a = small("a", choose("na", if thorough() { 5 } else { 4 }), 2);
    let b = small("b", choose("nb", if thorough() { 4 } else { 3 }), 2);
    gcd_spec(&a, &b);
}
fn rational_cubic() {
    let a = small("a", choose("na", 5), 1);
    let b = small("b", choose("nb", 4), 1);
    gcd_spec(&a, &b);
}

/// common linear factor by construction
fn rational_common() {
    let c = QP::from((vec![bi(choose("c", 7) as i64 - 3), bi(1 + choose("c1", 2) as i64)], bi(1)));
    let a = small("a", choose("na", 3), 2) * &c;
    let b = small("b", 1 + choose("nb", 2), 1) * &c;
    gcd_spec(&a, &b);
}

/// fractional contents
fn rational_content() {
    let a = small("a", choose("na", 3), 1) * Ratio::new(bi(choose("p", 3) as i64 - 1), bi(2));
    let b = small("b", choose("nb", 3), 1) * Ratio::new(bi(choose("q", 3) as i64 - 1), bi(3));
    gcd_spec(&a, &b);
}

/// symbolic constant against linear: unbounded values
fn rational_linear() {
    let a0 = any("a0");
    let a = QP::from((vec![a0.clone(), bi(1)], bi(1)));
    let b0 = any("b0");
    let b = QP::from((vec![b0.clone(), bi(1)], bi(1)));
    let g = a.gcd(&b);
    if a0 == b0 {
        check!(g == a, "equal linear polynomials");
    } else {
        check!(g.is_one(), "distinct monic linear polynomials are coprime");
    }
    let k = QP::from((vec![any("k"), bi(0)], bi(1)));
    let g = a.gcd(&k);
    check!(if k.is_zero() { g == a } else { g.is_one() }, "gcd with a constant");
    let p = &a * &b;
    check!(p.gcd(&a) == a && a.gcd(&p) == a, "gcd of a product and a factor");
}

/// longer common factors, repeated ones, and cofactors that share nothing
fn rational_bigger() {
    let f = |v: &[i64]| QP::from((v.iter().map(|&x| bi(x)).collect::<Vec<_>>(), bi(1)));
    let c = match choose("c", 6) {
        0 => f(&[1, 0, 1]),
        1 => f(&[-2, 0, 1]),
        2 => f(&[1, 1, 0, 1]),
        3 => f(&[-2, 0, 0, 3]),
        4 => f(&[0, 1, -2, 1]),
        _ => f(&[4, 4, 1]),
    };
    let a = small("a", 1 + choose("na", 3), 1) * &c;
    let b = match choose("b", 4) {
        0 => f(&[3]),
        1 => f(&[2, -1]),
        2 => f(&[-1, 0, 2]),
        _ => f(&[1, 0, 0, 5]),
    } * &c;
    gcd_spec(&a, &b);
    gcd_spec(&b, &a);
}
/// products of linear factors: the common roots and no others
fn rational_roots() {
    let (r, s, t) = (int("r", -20, 20), int("s", -20, 20), int("t", -20, 20));
    let l = |x: &BigInt| QP::from((vec![-x, bi(1)], bi(1)));
    let a = l(&r) * l(&s);
    let b = l(&t);
    let g = a.gcd(&b);
    if r == t || s == t {
        check!(g == b, "a shared root gives its linear factor");
    } else {
        check!(g.is_one(), "no shared root: coprime");
    }
    let g2 = b.gcd(&a);
    check!(g2 == g, "the order of the operands does not matter");
}

fn field(p: i64, na: usize, nb: usize) {
    let m = bi(p);
    let a = fp(&chosen_vec("a", na, 0, p - 1), &m);
    let b = fp(&chosen_vec("b", nb, 0, p - 1), &m);
    field_spec(a, b);
}
fn field_spec(a: FP, b: FP) {
    let ExtendedGCDResult { gcd, x, y } = a.extended_gcd(&b);
    check!(&x * &a + &y * &b == gcd, "x * a + y * b == gcd mod p");
    check!(gcd.is_zero() == (a.is_zero() && b.is_zero()), "gcd is zero only for zeros mod p");
    if !gcd.is_zero() {
        check!(fvals(&gcd).last().unwrap().is_one(), "gcd is monic mod p");
        check!((&a % &gcd).is_zero() && (&b % &gcd).is_zero(), "gcd divides both mod p");
    }
    check!(a.gcd(&b) == gcd, "gcd agrees with extended_gcd mod p");
    let GCDAndLCM { gcd: g, lcm } = a.gcd_lcm(&b);
    check!(g == gcd && &gcd * &lcm == &a * &b, "gcd * lcm == a * b mod p");
}
fn field2() {
    field(2, choose("na", 6), choose("nb", 6))
}
fn field3() {
    field(3, choose("na", 5), choose("nb", 4))
}
fn field5() {
    field(5, choose("na", 3), choose("nb", 3))
}

fn field7() {
    field(7, 1 + choose("na", 2), 1 + choose("nb", 2))
}
/// longer common factors mod p
fn field_common() {
    let p = [2i64, 3, 5, 7, 11][choose("p", 5)];
    let m = bi(p);
    let f = |v: &[i64]| fp(&v.iter().map(|&x| bi(((x % p) + p) % p)).collect::<Vec<_>>(), &m);
    let c = match choose("c", 5) {
        0 => f(&[1, 1]),
        1 => f(&[1, 0, 1]),
        2 => f(&[1, 1, 0, 1]),
        3 => f(&[-1, 0, 0, 0, 1]),
        _ => f(&[2, 0, 0, 1, 0, 1]),
    };
    let k = choose("k", p as usize) as i64;
    let a = match choose("a", 3) {
        0 => f(&[k]),
        1 => f(&[k, 1]),
        _ => f(&[1, k, 0, 1]),
    } * &c;
    let b = match choose("b", 3) {
        0 => f(&[1, 1]),
        1 => f(&[-1, 0, 1]),
        _ => f(&[3, 1, 0, 0, 1]),
    } * &c;
    field_spec(a.clone(), b.clone());
    let g = a.gcd(&b);
    check!((&g % &c).is_zero(), "the common factor divides the gcd mod p");
    if g.len() > c.len() {
        cover("more than the common factor")
    }
    field_spec(b, a);
}

fn main() {
    main_(&[
        h("rational", rational).covers(&["common factor"]),
        h("rational_cubic", rational_cubic).covers(&["common factor"]),
        h("rational_common", rational_common).covers(&["common factor"]),
        h("rational_content", rational_content),
        h("rational_linear", rational_linear),
        h("field2", field2),
        h("field3", field3),
        h("field5", field5),
        h("field7", field7),
        h("field_common", field_common).covers(&["more than the common factor"]),
        h("rational_bigger", rational_bigger).covers(&["common factor"]),
        h("rational_roots", rational_roots),
    ])
}
