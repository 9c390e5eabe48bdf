//! Content, primitive part, monic form and reducing factor of a polynomial.
//! encodes: Polynomial::{nonzero_content, content, primitive_part, into_primitive_part, primitive_part_assign, into_monic, monic_assign, nonzero_reducing_factor, reducing_factor, reduce_assign, into_reduced, to_reduced}, PolynomialReducingFactorSupported for BigInt, Ratio<BigInt>, ModularInteger<BigInt, KnownPrime<BigInt>>; GCD for BigInt and Ratio<BigInt>; exact division by a coefficient
//! outside: integers: more than 3 coefficients (up to 9 with one symbolic), two of them outside -6..6 (the third any); content times one of 7 primitive polynomials: content any; ratios: numerators outside -4..4 (one of them any), denominators above 4; fields other than GF(2), GF(3), GF(5)
use algebraics::traits::ExactDiv;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use verif_harness::spec::*;
use verif_harness::*;

fn gcd_all(v: &[BigInt]) -> BigInt {
    let mut g = bi(0);
    for x in v {
        g = Integer::gcd(&g, x);
    }
    g
}

/// everything about an integer polynomial, given its trimmed coefficients
fn int_spec(v: &[BigInt]) {
    let p = zp(v);
    if v.is_empty() {
        check!(p.nonzero_content().is_none() && p.nonzero_reducing_factor().is_none(), "zero has no content");
        check!(p.content().is_zero() && p.reducing_factor().is_zero(), "content of zero is zero");
        check!(p.primitive_part().is_zero() && p.to_reduced().is_zero(), "zero stays zero");
        let mut q = p.clone();
        q.primitive_part_assign();
        q.reduce_assign();
        check!(q.is_zero(), "zero stays zero in place");
        return;
    }
    let c = p.content();
    let q = p.primitive_part();
    let (e, _) = q.clone().split_out_divisor();
    check!(c.is_negative() == v.last().unwrap().is_negative() && !c.is_zero(), "content has the sign of the leading coefficient");
    check!(is_zp(&q, &e) && veq(&vscale(&e, &c), v), "content * primitive part == polynomial");
    check!(e.last().unwrap().is_positive(), "primitive part has a positive leading coefficient");
    check!(gcd_all(&e).is_one(), "primitive part has content one");
    check!(p.nonzero_content() == Some(c.clone()), "nonzero_content");
    check!(p.clone().into_primitive_part() == q, "into_primitive_part");
    let mut r = p.clone();
    r.primitive_part_assign();
    check!(r == q, "primitive_part_assign");
    check!(p.nonzero_reducing_factor() == Some(c.clone()) && p.reducing_factor() == c, "reducing factor is the content");
    check!(p.to_reduced() == q && p.clone().into_reduced() == q, "reduced form is the primitive part");
    let mut r = p.clone();
    r.reduce_assign();
    check!(r == q, "reduce_assign");
    check!(q.content().is_one() && q.primitive_part() == q, "primitive part is stable");
}

fn int_any() {
    let n = choose("n", 4);
    let mut v = chosen_vec("c", n, -6, 6);
    if n > 0 {
        let k = choose("any", n);
        if k == 0 || n < 3 {
            v[k] = any("x");
        }
    }
    int_spec(&trim(v));
}
/// a content of any size times a primitive polynomial
fn int_content() {
    let prims: [&[i64]; 7] = [&[1], &[0, 1], &[1, 3], &[1, 0, 2], &[0, -4, 9], &[-1, 1, 0, 1], &[0, 0, 5, 7]];
    let q: Vec<BigInt> = prims[choose("p", 7)].iter().map(|&x| bi(x)).collect();
    let c = any("c");
    assume(!c.is_zero());
    let v = vscale(&q, &c);
    let p = zp(&v);
    check!(p.content() == c, "content");
    check!(is_zp(&p.primitive_part(), &q), "primitive part");
    check!(p.nonzero_reducing_factor() == Some(c), "reducing factor");
    check!(is_zp(&p.to_reduced(), &q), "reduced");
}

/// long polynomials whose content only shows in the last coefficients looked at
fn int_long() {
    let n = [4, 6, 9][choose("n", 3)];
    let g = bi([1, 2, 6, 35][choose("g", 4)]);
    let mut v: Vec<BigInt> = (0..n as i64).map(|i| bi((i * i * 7 + 3) % 11 - 5) * &g).collect();
    v[n - 1] = bi([12, -18][choose("lead", 2)]) * &g;
    v[[0, n / 2, n - 2][choose("at", 3)]] = any("x");
    int_spec(&trim(v));
}

fn ratio() {
    let n = choose("n", 4);
    let mut v = chosen_vec("c", n, -4, 4);
    if n == 3 {
        assume(v[0].abs() <= bi(2) && v[1].abs() <= bi(2));
    }
    let mut ds = vec![];
    for i in 0..n {
        ds.push(bi(1 + choose(&format!("d{}", i), if i == 0 { 4 } else { 3 }) as i64));
    }
    let l = ds.iter().fold(bi(1), |a, d| Integer::lcm(&a, d));
    let cs: Vec<_> = v.iter().zip(&ds).map(|(a, d)| Ratio::new(a.clone(), d.clone())).collect();
    let p = QP::from(cs);
    for (a, d) in v.iter_mut().zip(&ds) {
        *a = &*a * (&l / d);
    }
    ratio_spec(&trim(v), &l, p);
}
fn ratio_any() {
    let d = bi(1 + choose("d", 4) as i64);
    let x = any("x");
    let k = bi(choose("k", 7) as i64 - 3);
    let v = if choose("o", 2) == 0 { vec![x, k] } else { vec![k, x] };
    let p = QP::from((v.clone(), d.clone()));
    ratio_spec(&trim(v), &d, p);
}
fn ratio_spec(v: &[BigInt], l: &BigInt, p: QP) {
    if v.is_empty() {
        check!(p.nonzero_content().is_none() && p.content().is_zero(), "content of zero");
        check!(p.nonzero_reducing_factor().is_none() && p.reducing_factor().is_zero(), "reducing factor of zero");
        check!(p.primitive_part().is_zero() && p.to_reduced().is_zero() && p.clone().into_monic().is_zero(), "zero stays zero");
        return;
    }
    let c = p.content();
    check!(c.is_negative() == v.last().unwrap().is_negative() && !c.is_zero(), "content sign");
    let q = p.primitive_part();
    let (e, d) = q.clone().split_out_divisor();
    check!(d.is_one() && qp_normal(&q), "primitive part is integral");
    check!(e.len() == v.len() && gcd_all(&e).is_one() && e.last().unwrap().is_positive(), "primitive part is primitive");
    check!((0..v.len()).all(|i| &e[i] * c.numer() * l == &v[i] * c.denom()), "content * primitive part == polynomial");
    check!(p.clone().into_primitive_part() == q, "into_primitive_part");
    let m = p.to_reduced();
    let lead = v.last().unwrap();
    let (me, md) = m.clone().split_out_divisor();
    check!(
        qp_normal(&m) && me.len() == v.len() && (0..v.len()).all(|i| &me[i] * lead == &v[i] * &md),
        "reduced form is monic"
    );
    check!(m.highest_power_coefficient().is_one(), "monic");
    check!(p.clone().into_monic() == m && p.clone().into_reduced() == m, "into_monic, into_reduced");
    let mut r = p.clone();
    r.monic_assign();
    check!(r == m, "monic_assign");
    let f = p.reducing_factor();
    check!(p.nonzero_reducing_factor() == Some(f.clone()), "nonzero_reducing_factor");
    check!(f.numer() * l == lead * f.denom() && canonical(&f), "reducing factor is the leading coefficient");
    let mut r = p.clone();
    r.reduce_assign();
    check!(r == m && p.exact_div(&f) == m, "reduce_assign");
}

fn field_spec(m: i64, n: usize) {
    let m = bi(m);
    let v: Vec<BigInt> = (0..n).map(|i| bi(choose(&format!("c{}", i), num_traits::ToPrimitive::to_usize(&m).unwrap()) as i64)).collect();
    let p = fp(&v, &m);
    let v = trim(v);
    let r = p.to_reduced();
    if v.is_empty() {
        check!(r.is_zero() && p.nonzero_reducing_factor().is_none() && p.into_monic().is_zero(), "zero stays zero");
        return;
    }
    let lead = v.last().unwrap();
    let e = fvals(&r);
    check!(is_fp(&r, &e, &m) && e.len() == v.len() && e.last().unwrap().is_one(), "monic");
    check!(is_fp(&p, &vscale(&e, lead), &m), "lead * monic == polynomial");
    check!(*p.nonzero_reducing_factor().unwrap().value() == *lead, "reducing factor");
    check!(p.clone().into_monic() == r && p.into_reduced() == r, "into_monic");
}
fn field() {
    match choose("m", 3) {
        0 => field_spec(2, choose("n", 5)),
        1 => field_spec(3, choose("n", 5)),
        _ => field_spec(5, choose("n", 4)),
    }
}

fn main() {
    main_(&[
        h("int_any", int_any),
        h("int_content", int_content),
        h("int_long", int_long),
        h("ratio", ratio),
        h("ratio_any", ratio_any),
        h("field", field),
    ]);
}
