//! Resultants and subresultant remainder sequences of integer polynomials.
//! encodes: Polynomial::{resultant, nonzero_resultant, subresultant_gcd}, recursive_resultant, exact_mul_by_signed_power, pseudo_div_rem, coefficient_pow_usize, exact_div, for T = BigInt, Ratio<BigInt> and Polynomial<BigInt>
//! outside: coefficients of any size only up to degrees 2 x 2, 1 x 3 and 1 x 4; larger degrees with coefficients in small ranges (3 x 2, 2 x 4) or 36 coefficient patterns with one symbolic coefficient in -20..20 (4 x 3, 4 x 4, 5 x 2)
use algebraics::polynomial::Polynomial;
use num_traits::{One, Zero};
use verif_harness::spec::*;
use verif_harness::*;

/// determinant of the Sylvester matrix by expansion along the first column
fn det(m: &[Vec<BigInt>]) -> BigInt {
    if m.is_empty() {
        return bi(1);
    }
    let mut r = bi(0);
    for i in 0..m.len() {
        let sub: Vec<Vec<BigInt>> = (0..m.len()).filter(|k| *k != i).map(|k| m[k][1..].to_vec()).collect();
        let t = &m[i][0] * det(&sub);
        r = if i % 2 == 0 { r + t } else { r - t };
    }
    r
}
fn sylvester(a: &[BigInt], b: &[BigInt]) -> BigInt {
    if a.is_empty() || b.is_empty() {
        return bi(0);
    }
    let (m, n) = (a.len() - 1, b.len() - 1);
    let mut rows = vec![];
    for i in 0..n {
        rows.push((0..m + n).map(|j| if j >= i && j - i <= m { a[m - (j - i)].clone() } else { bi(0) }).collect());
    }
    for i in 0..m {
        rows.push((0..m + n).map(|j| if j >= i && j - i <= n { b[n - (j - i)].clone() } else { bi(0) }).collect());
    }
    det(&rows)
}

fn resultant_spec(a: &[BigInt], b: &[BigInt]) {
    let want = sylvester(a, b);
    let r = zp(a).resultant(zp(b));
    check!(r == want, "resultant is the determinant of the Sylvester matrix");
    let nz = zp(a).nonzero_resultant(zp(b));
    check!(nz.unwrap_or_else(|| bi(0)) == want, "nonzero_resultant");
}

fn resultant_any() {
    let (a, _) = any_zp("a", choose("na", 4));
    let (b, _) = any_zp("b", choose("nb", 4));
    resultant_spec(&a, &b);
}
fn small(n: &str, k: usize, r: i64) -> Vec<BigInt> {
    trim(int_vec(n, k, -r, r))
}
fn resultant_small() {
    let a = small("a", choose("na", 5), 1);
    let b = small("b", choose("nb", 4), 2);
    resultant_spec(&a, &b);
}
/// the left operand of the lower degree: the sign of the exchange
fn resultant_lower() {
    let mut a = vec![any("a0"), any("a1")];
    assume(!a[1].is_zero());
    let nb = 2 + choose("nb", 3);
    let mut b: Vec<BigInt> = (0..nb).map(|i| any(&format!("b{}", i))).collect();
    assume(!b[nb - 1].is_zero());
    resultant_spec(&a, &b);
    if choose("scaled", 2) == 1 {
        // and a constant on the left
        a.truncate(1);
        assume(!a[0].is_zero());
        let _ = b.pop();
        assume(!b[nb - 2].is_zero());
        resultant_spec(&a, &b);
    }
}
fn resultant_lower_small() {
    let a = small("a", 2 + choose("na", 2), 1);
    let b = small("b", 3 + choose("nb", 3), 1);
    assume(a.len() < b.len());
    resultant_spec(&a, &b);
    cover("lower degree first");
}
/// long and irregular remainder sequences: most coefficients fixed, one symbolic
fn resultant_long() {
    let (s, t, u) = (int("s", -20, 20), bi([0, -2, 3][choose("t", 3)]), bi([1, -3][choose("u", 2)]));
    let f = |v: &[i64]| -> Vec<BigInt> { v.iter().map(|&x| bi(x)).collect() };
    let (mut a, mut b) = match choose("shape", 6) {
        0 => (f(&[0, 0, -1, 2, 3]), f(&[0, 3, -1, 2])),
        1 => (f(&[0, 0, 1, 0, 1]), f(&[0, 1, 2, 3])),
        2 => (f(&[0, 0, 0, 0, 0, 2]), f(&[0, 0, 3])),
        3 => (f(&[0, 0, 0, 2, 1]), f(&[0, 0, 3])),
        4 => (f(&[0, 0, 1, 3]), f(&[0, 2, 0, 2])),
        _ => (f(&[0, 0, 0, 0, 1]), f(&[0, 0, 0, 2, 3])),
    };
    a[0] = s;
    a[1] = t;
    b[0] = u;
    if choose("exchange", 2) == 1 {
        std::mem::swap(&mut a, &mut b);
    }
    resultant_spec(&a, &b);
}
/// degree gaps of every kind along the remainder sequence: built backwards from a chosen sequence
/// of quotient degrees, so that the defects are known
fn gapped(top: &BigInt) -> (Vec<BigInt>, Vec<BigInt>) {
    let f = |v: &[i64]| -> Vec<BigInt> { v.iter().map(|&x| bi(x)).collect() };
    // r_{i-1} = q_i r_i + r_{i+1}
    let q: [&[i64]; 5] = [&[1, 2], &[-1, 0, 1], &[0, -3], &[2, 1, 0, -1], &[1, 1]];
    let seq: &[usize] = [&[0usize, 1][..], &[1, 0], &[1, 2], &[3, 0], &[0, 3], &[1, 1], &[0, 1, 2], &[1, 0, 4], &[4, 2, 0, 4]][choose("seq", 9)];
    let (mut hi, mut lo) = (match choose("end", 2) {
        0 => vec![top.clone()],
        _ => vec![top.clone(), bi(-2)],
    }, f(&[]));
    for &k in seq {
        let n = vadd(&vmul(&f(q[k]), &hi), &lo);
        lo = hi;
        hi = n;
    }
    (hi, lo)
}
fn resultant_gaps() {
    let (a, b) = gapped(&int("s", -9, 9));
    let (a, b) = (trim(a), trim(b));
    assume(a.len() + b.len() < 11);
    let n = (a.len(), b.len());
    resultant_spec(&a, &b);
    resultant_spec(&b, &a);
    if n.0 > n.1 + 1 {
        cover("gap at the start")
    }
}
fn subresultant_gaps() {
    let (a, b) = gapped(&bi([1, -3, 0][choose("s", 3)]));
    let (a, b) = (trim(a), trim(b));
    subresultant_spec(&a, &b);
    subresultant_spec(&b, &a);
}
fn resultant_monic() {
    let mut a = int_vec("a", 2 + choose("na", 2), -2, 2);
    a.push(bi(1));
    let mut b = int_vec("b", 1 + choose("nb", 2), -2, 2);
    b.push(bi(2));
    resultant_spec(&a, &b);
}
/// zero exactly when there is a common root
fn resultant_roots() {
    let (r, s, t) = (any("r"), any("s"), any("t"));
    let (k, l) = (any("k"), any("l"));
    assume(!k.is_zero() && !l.is_zero());
    let a = vscale(&vmul(&[-&r, bi(1)], &[-&s, bi(1)]), &k);
    let b = vscale(&[-&t, bi(1)], &l);
    let v = zp(&a).resultant(zp(&b));
    // lc(a)^deg b * lc(b)^deg a * prod (a_i - b_j)
    check!(v == &k * &l * &l * (&r - &t) * (&s - &t), "resultant as product of root differences");
    let w = zp(&b).resultant(zp(&a));
    check!(w == v, "resultant, operands exchanged");
}
/// over rationals: scaling
fn resultant_ratio() {
    let a = small("a", choose("na", 4), 1);
    let b = small("b", choose("nb", 3), 1);
    let (p, q) = (bi(1 + choose("p", 3) as i64), bi(1 + choose("q", 2) as i64));
    let r = QP::from((a.clone(), p.clone())).resultant(QP::from((b.clone(), q.clone())));
    let mut d = bi(1);
    for _ in 1..b.len() {
        d = d * &p;
    }
    for _ in 1..a.len() {
        d = d * &q;
    }
    check!(r.numer() * d == sylvester(&a, &b) * r.denom(), "resultant over Ratio");
}
/// two variables: the resultant with respect to X, evaluated at y, is the resultant of the
/// polynomials evaluated at y (whenever no leading coefficient vanishes there)
fn resultant_nested() {
    let mk = |n: &str, k: usize| -> (Vec<Vec<BigInt>>, Polynomial<ZP>) {
        let v: Vec<Vec<BigInt>> = (0..k).map(|i| int_vec(&format!("{}{}_", n, i), 2, -1, 1)).collect();
        let p = v.iter().map(|v| zp(v)).collect::<Vec<_>>().into();
        (v, p)
    };
    let (a, pa) = mk("a", 1 + choose("na", 3));
    let (b, pb) = mk("b", 1 + choose("nb", 2));
    let r = pa.resultant(pb);
    let y = int("y", -2, 2);
    let ea: Vec<BigInt> = a.iter().map(|v| veval(v, &y)).collect();
    let eb: Vec<BigInt> = b.iter().map(|v| veval(v, &y)).collect();
    assume(!ea.last().unwrap().is_zero() && !eb.last().unwrap().is_zero());
    check!(r.eval(&y) == sylvester(&ea, &eb), "resultant commutes with evaluation");
}

/// subresultant_gcd is a common divisor up to a nonzero constant, of the right degree
fn subresultant() {
    let a = small("a", choose("na", 5), 2);
    let b = small("b", choose("nb", 3), 2);
    subresultant_spec(&a, &b);
}
fn subresultant_chosen() {
    let a = trim(chosen_vec("a", choose("na", 5), -1, 1));
    let b = trim(chosen_vec("b", 2 + choose("nb", 3), -1, 1));
    subresultant_spec(&a, &b);
}
fn subresultant_common() {
    let c = vec![int("c", -2, 2), bi(1 + choose("c1", 2) as i64)];
    let a = vmul(&small("a", choose("na", 4), 1), &c);
    let b = vmul(&small("b", choose("nb", 3), 1), &c);
    subresultant_spec(&trim(a), &trim(b));
}
fn subresultant_spec(a: &[BigInt], b: &[BigInt]) {
    let g = zp(a).subresultant_gcd(zp(b));
    let (gv, _) = g.clone().split_out_divisor();
    if a.is_empty() || b.is_empty() {
        check!(veq(&gv, if a.is_empty() { b } else { a }), "gcd with zero");
        return;
    }
    check!(!gv.is_empty(), "gcd of nonzero polynomials is nonzero");
    // divides both over the rationals
    check!(zp(a).pseudo_div_rem(&g).remainder.is_zero(), "divides a");
    check!(zp(b).pseudo_div_rem(&g).remainder.is_zero(), "divides b");
    // nothing bigger divides both: the cofactors have a nonzero resultant
    let q = |p: &[BigInt]| -> Vec<BigInt> { zp(p).pseudo_div_rem(&g).quotient.split_out_divisor().0 };
    check!(!sylvester(&q(a), &q(b)).is_zero(), "the cofactors are coprime");
    if gv.len() > 1 {
        cover("common factor")
    } else {
        // a constant subresultant gcd is the resultant when the last step drops one degree
        cover("coprime")
    }
    let _ = ZP::one();
}

fn main() {
    main_(&[
        h("resultant_any", resultant_any),
        h("resultant_small", resultant_small),
        h("resultant_lower", resultant_lower),
        h("resultant_lower_small", resultant_lower_small).covers(&["lower degree first"]),
        h("resultant_long", resultant_long),
        h("resultant_gaps", resultant_gaps).covers(&["gap at the start"]),
        h("subresultant_gaps", subresultant_gaps),
        h("resultant_monic", resultant_monic),
        h("resultant_roots", resultant_roots),
        h("resultant_ratio", resultant_ratio),
        h("resultant_nested", resultant_nested),
        h("subresultant", subresultant).covers(&["common factor", "coprime"]),
        h("subresultant_chosen", subresultant_chosen).covers(&["common factor", "coprime"]),
        h("subresultant_common", subresultant_common).covers(&["common factor"]),
    ])
}
