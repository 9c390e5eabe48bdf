//! Polynomial construction, normal form, access, iteration and norms.
//! encodes: Polynomial::{from (Cow/Vec/slice/array/coefficient/(elements,divisor)), from_iter, default, zero, one, set_zero, set_one, is_zero, is_one, make_monomial, coefficient, nonzero_coefficient, highest_power_coefficient, into_coefficients, split_out_divisor, iter, into_iter, len, degree, is_empty, normalize, set_one_if_nonzero, into_one_if_nonzero, to_one_if_nonzero, max_norm, manhattan_norm}
//! encodes: PolynomialCoefficient for BigInt, Ratio<BigInt>, ModularInteger<BigInt, BigInt>, Polynomial<BigInt>: {coefficients_to_elements, coefficient_to_element, make_coefficient, reduce_divisor, is_element_zero, ...}
//! outside: more than 4 coefficients (construction, access and iteration of 6, 9 and 17 with symbolic ones, norms of 5 and 8 with one symbolic); denominators above 4 (quick) / 7 (thorough); moduli other than 2..7
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::borrow::Cow;
use verif_harness::spec::*;
use verif_harness::*;

fn int_forms() {
    let n = choose("n", 5);
    let v = any_vec("c", n);
    let p = ZP::from(v.clone());
    check!(is_zp(&p, &v), "From<Vec>");
    check!(ZP::from(&v[..]) == p, "From<&[T]>");
    check!(ZP::from(Cow::Borrowed(&v[..])) == p, "From<Cow>");
    check!(ZP::from(Cow::Owned(v.clone())) == p, "From<Cow owned>");
    check!(v.iter().cloned().collect::<ZP>() == p, "FromIterator");
    check!(
        ZP::from((v.clone(), algebraics::polynomial::DivisorIsOne)) == p,
        "From<(elements, divisor)>"
    );
    if n == 3 {
        let a = [v[0].clone(), v[1].clone(), v[2].clone()];
        check!(ZP::from(a) == p, "From<[T; 3]>");
    }
    if n == 1 {
        check!(ZP::from(v[0].clone()) == p, "From<T>");
        check!(ZP::from(&v[0]) == p, "From<&T>");
    }
    let t = trim(v.clone());
    if t.len() < n {
        cover("trailing zero")
    }
    check!(p.len() == t.len() && p.is_empty() == t.is_empty() && p.is_zero() == t.is_empty(), "len");
    check!(p.degree() == t.len().checked_sub(1), "degree");
    for i in 0..n + 1 {
        check!(p.coefficient(i) == at(&t, i), "coefficient");
        check!(p.nonzero_coefficient(i) == t.get(i).cloned(), "nonzero_coefficient");
    }
    check!(p.nonzero_highest_power_coefficient() == t.last().cloned(), "nonzero_highest_power_coefficient");
    check!(p.highest_power_coefficient() == t.last().cloned().unwrap_or_else(|| bi(0)), "highest_power_coefficient");
    check!(p.clone().into_coefficients() == t, "into_coefficients");
    check!(p.clone().split_out_divisor().0 == t, "split_out_divisor");
    check!(p.is_one() == (t.len() == 1 && t[0] == bi(1)), "is_one");
    check!(One::is_one(&p) == (t.len() == 1 && t[0] == bi(1)), "One::is_one");
    let mx = t.iter().map(|c| c.abs()).max();
    check!(p.nonzero_max_norm() == mx, "nonzero_max_norm");
    check!(p.max_norm() == mx.unwrap_or_else(|| bi(0)), "max_norm");
    let sum = t.iter().fold(bi(0), |a, c| a + c.abs());
    check!(p.manhattan_norm() == sum, "manhattan_norm");
    check!(p.nonzero_manhattan_norm() == if t.is_empty() { None } else { Some(sum) }, "nonzero_manhattan_norm");
    let mut q = p.clone();
    q.set_zero();
    check!(q == ZP::zero() && q.is_zero() && q.len() == 0 && q == ZP::default(), "set_zero");
    let mut q = p.clone();
    q.set_one();
    check!(is_zp(&q, &[bi(1)]) && q.is_one() && q == ZP::one(), "set_one");
    let mut q = p.clone();
    let r = q.set_one_if_nonzero();
    check!(r.is_ok() == !t.is_empty() && if t.is_empty() { q.is_zero() } else { q.is_one() }, "set_one_if_nonzero");
    check!(p.to_one_if_nonzero() == if t.is_empty() { None } else { Some(ZP::one()) }, "to_one_if_nonzero");
    check!(p.clone().into_one_if_nonzero() == if t.is_empty() { Err(ZP::zero()) } else { Ok(ZP::one()) }, "into_one_if_nonzero");
    if t.len() > 1 {
        check!(p.to_i64().is_none() && p.to_u128().is_none(), "to_primitive of a non-constant");
    }
    if t.is_empty() {
        check!(p.to_i64() == Some(0) && p.to_u8() == Some(0), "to_primitive of zero");
    }
}

/// forward and backward iteration in every interleaving
fn iterate() {
    let n = choose("n", 5);
    let (t, p) = any_zp("c", n);
    let q = QP::from(t.iter().map(|c| Ratio::new(c.clone(), bi(1))).collect::<Vec<_>>());
    let mut it = p.iter();
    let mut into = p.clone().into_iter();
    let mut qi = q.iter();
    let mut qinto = q.clone().into_iter();
    let (mut lo, mut hi) = (0, t.len());
    for i in 0..n + 1 {
        check!(it.len() == hi - lo && into.len() == hi - lo && qi.len() == hi - lo && qinto.len() == hi - lo, "iterator length");
        let back = choose(&format!("dir{}", i), 2) == 1;
        let want = if lo == hi {
            None
        } else if back {
            hi -= 1;
            Some(t[hi].clone())
        } else {
            lo += 1;
            Some(t[lo - 1].clone())
        };
        let (a, b, c, d) = if back {
            (it.next_back(), into.next_back(), qi.next_back(), qinto.next_back())
        } else {
            (it.next(), into.next(), qi.next(), qinto.next())
        };
        check!(a == want, "iter()");
        check!(b == want, "into_iter()");
        check!(c.map(|v| v.to_integer()) == want, "iter() over Ratio");
        check!(d.map(|v| v.to_integer()) == want, "into_iter() over Ratio");
    }
    check!((&p).into_iter().collect::<Vec<_>>() == t, "&poly into_iter");
}

fn monomial() {
    let c = any("c");
    let k = choose("k", 5);
    let p = ZP::make_monomial(c.clone(), k);
    let mut v: Vec<BigInt> = (0..k).map(|_| bi(0)).collect();
    v.push(c.clone());
    check!(is_zp(&p, &v), "make_monomial");
    let (n, d, r) = any_ratio("r", 4);
    let p = QP::make_monomial(r, k);
    v[k] = n;
    check!(is_qp(&p, &v, &d), "make_monomial over Ratio");
}

fn ratio_forms() {
    let n = choose("n", 4);
    let (v, d, p) = any_qp("c", n, if thorough() { 7 } else { 4 });
    check!(is_qp(&p, &v, &d), "From<Vec<Ratio>> is in normal form and exact");
    let cs: Vec<Ratio<BigInt>> = p.iter().collect();
    for (i, c) in cs.iter().enumerate() {
        check!(canonical(c) && c.numer() * &d == &v[i] * c.denom(), "iter() yields reduced coefficients");
        check!(p.coefficient(i) == *c, "coefficient");
    }
    let full: Vec<Ratio<BigInt>> = v.iter().map(|x| Ratio::new(x.clone(), d.clone())).collect();
    check!(QP::from(&full[..]) == p, "From<&[Ratio]>");
    check!(full.iter().cloned().collect::<QP>() == p, "FromIterator<Ratio>");
    check!(QP::from((v.clone(), d.clone())) == p, "From<(elements, divisor)>");
    check!(p.clone().into_coefficients() == cs && p.clone().into_iter().collect::<Vec<_>>() == cs, "into_coefficients");
    if n == 1 {
        check!(QP::from(full[0].clone()) == p && QP::from(&full[0]) == p, "From<Ratio>");
    }
    if let Some(c) = cs.last() {
        check!(!c.is_zero() && p.highest_power_coefficient() == *c, "highest coefficient");
    }
    let isone = !v.is_empty() && v[0] == d && v[1..].iter().all(|c| c.is_zero());
    check!(p.is_one() == isone && One::is_one(&p) == isone, "is_one");
    let mut q = p.clone();
    q.set_one();
    check!(is_qp(&q, &[bi(1)], &bi(1)) && q == QP::one(), "set_one");
    let mut q = p.clone();
    q.set_zero();
    check!(q == QP::zero() && is_qp(&q, &[], &bi(1)), "set_zero");
    if p.is_zero() {
        check!(p == QP::zero() && p == QP::default(), "zero is unique");
    } else {
        check!(p.to_one_if_nonzero() == Some(QP::one()), "to_one_if_nonzero");
        let mut q = p.clone();
        check!(q.set_one_if_nonzero().is_ok() && q == QP::one(), "set_one_if_nonzero");
    }
}

fn ratio_norms() {
    let n = choose("n", 3);
    let (v, d, p) = any_qp("c", n, 4);
    let mx = v.iter().map(|c| c.abs()).max().unwrap_or_else(|| bi(0));
    let m = p.max_norm();
    check!(canonical(&m) && m.numer() * &d == mx * m.denom(), "max_norm over Ratio");
    let sum = v.iter().fold(bi(0), |a, c| a + c.abs());
    let m = p.manhattan_norm();
    check!(m.numer() * &d == sum * m.denom(), "manhattan_norm over Ratio");
}

fn modular_forms() {
    let n = choose("n", 4);
    let m = bi(2 + choose("m", 6) as i64);
    let v = any_vec("c", n);
    let p = mp(&v, &m);
    check!(is_mp(&p, &v, &m), "From<Vec<ModularInteger>>");
    check!(v.iter().map(|c| mi(c, &m)).collect::<MP>() == p, "FromIterator<ModularInteger>");
    if let Some(o) = p.to_one_if_nonzero() {
        check!(is_mp(&o, &[bi(1)], &m) && o.is_one(), "to_one_if_nonzero mod m");
    } else {
        check!(p.is_zero(), "to_one_if_nonzero is None only for zero");
    }
}

fn nested_forms() {
    let n = choose("n", 3);
    let vs: Vec<Vec<BigInt>> = (0..n).map(|i| any_vec(&format!("c{}_", i), 2)).collect();
    let p: algebraics::polynomial::Polynomial<ZP> = vs.iter().map(|v| zp(v)).collect::<Vec<_>>().into();
    let ts: Vec<Vec<BigInt>> = vs.iter().map(|v| trim(v.clone())).collect();
    let mut k = n;
    while k > 0 && ts[k - 1].is_empty() {
        k -= 1
    }
    check!(p.len() == k, "nested: normal form");
    for i in 0..k {
        check!(is_zp(&p.coefficient(i), &vs[i]), "nested: coefficient");
    }
    check!(p.is_one() == (k == 1 && ts[0].len() == 1 && ts[0][0] == bi(1)), "nested: is_one");
}

/// long polynomials: every run of trailing zeros, norms, both ends
fn long() {
    let n = [6, 9, 17][choose("n", 3)];
    let mut v = any_vec("c", n);
    // a run of zeros below the top, and maybe at the top
    let z = choose("z", n);
    for k in (z + 1)..n {
        v[k] = bi(0);
    }
    if z >= 2 {
        v[z - 1] = bi(0);
    }
    let p = zp(&v);
    check!(is_zp(&p, &v), "From<Vec>");
    let t = trim(v.clone());
    check!(p.len() == t.len() && p.degree() == t.len().checked_sub(1), "degree");
    check!(p.clone().into_coefficients() == t && p.iter().collect::<Vec<_>>() == t, "coefficients");
    let mut r = p.into_iter().rev().collect::<Vec<_>>();
    r.reverse();
    check!(r == t, "backwards");
    let q = QP::from((v.clone(), bi(1)));
    check!(is_qp(&q, &v, &bi(1)), "over Ratio");
    let m = [2i64, 3, 101][choose("m", 3)];
    let w: Vec<BigInt> = (0..n).map(|k| if k == z { int("w", 0, m - 1) } else if k < z { bi(k as i64 % m) } else { bi(0) }).collect();
    check!(is_mp(&mp(&w, &bi(m)), &w, &bi(m)), "mod m");
}
fn long_norms() {
    let n = [5, 8][choose("n", 2)];
    let mut v: Vec<BigInt> = (0..n as i64).map(|i| bi((i * i * 7 + 3) % 11 - 5)).collect();
    v[n - 1] = bi(-6);
    v[choose("at", n)] = any("s");
    let p = zp(&v);
    let mx = v.iter().map(|c| c.abs()).max().unwrap();
    let sum = v.iter().fold(bi(0), |a, c| a + c.abs());
    check!(p.max_norm() == mx && p.manhattan_norm() == sum, "norms");
}

fn main() {
    main_(&[
        h("int_forms", int_forms).covers(&["trailing zero"]),
        h("iterate", iterate),
        h("monomial", monomial),
        h("ratio_forms", ratio_forms),
        h("ratio_norms", ratio_norms),
        h("modular_forms", modular_forms),
        h("nested_forms", nested_forms),
        h("long", long),
        h("long_norms", long_norms),
    ])
}
