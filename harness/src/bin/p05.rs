//! Polynomial division: pseudo-division, division with remainder, exact division, modular powers.
//! encodes: Polynomial::{checked_pseudo_div_rem, pseudo_div_rem, exact_pseudo_div, checked_exact_pseudo_div, checked_div_rem, div_rem, checked_powmod, powmod}, element_pseudo_div_rem, Div/Rem/DivAssign/RemAssign/CheckedDiv/CheckedRem/ExactDiv/ExactDivAssign<Polynomial<T> | T>, div_single, checked_div_single, checked_div_assign_single, for T = BigInt, Ratio<BigInt>, ModularInteger<BigInt, BigInt>
//! outside: dividends of more than 4 and divisors of more than 3 symbolic coefficients (integers); dividends of up to 9 symbolic coefficients (ratios: one of 8; modular: two of 9) only by 9 fixed divisors; ratios: dividends of 2 (quick) / 3 (thorough) coefficients by linear divisors with coefficients -2..3 over 1..2, of 4 integer coefficients by quadratics with coefficients -1..2; exponents above 5, except 14 up to 100 for x + a over GF(2..13); moduli other than 2, 3, 5, 7 (13, 101 with fixed divisors)
use algebraics::polynomial::PseudoDivRem;
use algebraics::traits::{ExactDiv, ExactDivAssign};
use num_traits::{CheckedDiv, CheckedRem, ToPrimitive, Zero};
use verif_harness::spec::*;
use verif_harness::*;

fn pseudo_int() {
    let (a, pa) = any_zp("a", choose("na", 5));
    let (b, pb) = any_zp("b", choose("nb", 4));
    let r = pa.clone().checked_pseudo_div_rem(&pb);
    if b.is_empty() {
        check!(r.is_none(), "pseudo-division by zero is refused");
        check!(panics(|| pa.pseudo_div_rem(&pb)), "pseudo_div_rem by zero panics");
        return;
    }
    let PseudoDivRem { quotient, remainder, factor } = r.unwrap();
    let (q, _) = quotient.clone().split_out_divisor();
    let (rem, _) = remainder.clone().split_out_divisor();
    check!(!factor.is_zero(), "factor is nonzero");
    check!(rem.len() < b.len(), "remainder has lower degree");
    check!(is_zp(&quotient, &q) && is_zp(&remainder, &rem), "normal form");
    check!(
        veq(&vscale(&a, &factor), &vadd(&vmul(&q, &b), &rem)),
        "factor * a == quotient * b + remainder"
    );
    let mut f = bi(1);
    for _ in 0..(a.len() + 1).saturating_sub(b.len()) {
        f = f * b.last().unwrap();
    }
    check!(factor == f, "factor is the expected power of the leading coefficient");
    let e = pa.clone().checked_exact_pseudo_div(&pb);
    if remainder.is_zero() {
        cover("exact");
        check!(e == Some((quotient, factor)), "checked_exact_pseudo_div");
    } else {
        check!(e.is_none(), "checked_exact_pseudo_div refuses a remainder");
    }
}

/// the quotient of a product by one of its factors is the other factor
fn exact_product() {
    let (q, pq) = any_zp("q", choose("nq", 4));
    let (b, pb) = any_zp("b", 1 + choose("nb", 3));
    assume(!b.is_empty());
    let p = zp(&vmul(&q, &b));
    check!((&p).checked_exact_div(&pb) == Some(pq.clone()), "checked_exact_div of a product");
    check!((&p).exact_div(&pb) == pq, "exact_div (&,&)");
    check!((&p).exact_div(pb.clone()) == pq, "exact_div (&,own)");
    check!(p.clone().exact_div(&pb) == pq, "exact_div (own,&)");
    check!(p.clone().exact_div(pb.clone()) == pq, "exact_div (own,own)");
    check!(p.clone().checked_exact_div(pb.clone()) == Some(pq.clone()), "checked_exact_div (own,own)");
    let mut r = p.clone();
    r.exact_div_assign(&pb);
    check!(r == pq, "exact_div_assign");
    let mut r = p.clone();
    check!(r.checked_exact_div_assign(pb.clone()) == Ok(()) && r == pq, "checked_exact_div_assign");
    check!(p.clone().div_rem(&pb) == (pq.clone(), ZP::zero()), "div_rem of a product");
    check!(p.checked_div_rem(&pb) == Some((pq, ZP::zero())), "checked_div_rem of a product");
}

/// divisibility is decided correctly: symbolic dividend, every small divisor
fn exact_decision() {
    let n = choose("na", 4);
    let (a, pa) = any_zp("a", n);
    let nb = 1 + choose("nb", 2);
    let b: Vec<BigInt> = (0..nb).map(|i| bi(choose(&format!("b{}", i), 7) as i64 - 3)).collect();
    assume(!b[nb - 1].is_zero());
    let pb = zp(&b);
    let e = (&pa).checked_exact_div(&pb);
    match &e {
        Some(q) => {
            let (q, _) = q.clone().split_out_divisor();
            check!(veq(&vmul(&q, &b), &a), "exact quotient times divisor");
        }
        None => {
            cover("refused");
            // long division over the integers: it must fail somewhere
            let mut r = a.clone();
            let mut ok = true;
            while r.len() >= nb {
                let top = r.pop().unwrap();
                if !num_integer::Integer::mod_floor(&top, &b[nb - 1]).is_zero() {
                    ok = false;
                    break;
                }
                let c = num_integer::Integer::div_floor(&top, &b[nb - 1]);
                let s = r.len() + 1 - nb;
                for i in 0..nb - 1 {
                    r[s + i] = &r[s + i] - &c * &b[i];
                }
            }
            check!(!(ok && r.iter().all(|c| c.is_zero())), "an exact quotient exists but was refused");
        }
    }
    let mut r = pa.clone();
    check!(r.checked_exact_div_assign(&pb).is_ok() == e.is_some(), "checked_exact_div_assign agrees");
    check!(r == e.clone().unwrap_or(pa.clone()), "a refused division leaves the polynomial unchanged");
    if nb == 1 {
        let c = b[0].clone();
        check!((&pa).checked_exact_div(&c) == e, "checked_exact_div by coefficient (&,&)");
        check!((&pa).checked_exact_div(c.clone()) == e, "checked_exact_div by coefficient (&,own)");
        check!(pa.clone().checked_exact_div(&c) == e, "checked_exact_div by coefficient (own,&)");
        check!(pa.clone().checked_exact_div(c.clone()) == e, "checked_exact_div by coefficient (own,own)");
        let mut r = pa.clone();
        check!(r.checked_exact_div_assign(&c).is_ok() == e.is_some(), "checked_exact_div_assign by coefficient");
        check!(r == e.clone().unwrap_or(pa.clone()), "a refused division by a coefficient leaves the polynomial unchanged");
        let mut r = pa.clone();
        check!(r.checked_exact_div_assign(c.clone()).is_ok() == e.is_some(), "checked_exact_div_assign by coefficient");
        check!(r == e.clone().unwrap_or(pa.clone()), "a refused division by a coefficient leaves the polynomial unchanged");
        if let Some(q) = e {
            check!(&pa / &c == q && &pa / c.clone() == q && pa.clone() / &c == q && pa.clone() / c.clone() == q, "poly / coefficient");
            let mut r = pa.clone();
            r /= &c;
            let mut s = pa.clone();
            s /= c.clone();
            let mut t = pa.clone();
            t.exact_div_assign(c);
            check!(r == q && s == q && t == q, "poly /= coefficient");
        }
    }
}

fn ratio_division(a: &[BigInt], pa: &QP, b: &[BigInt], pb: &QP, ad: &BigInt, bd: &BigInt) {
    let (q, r) = pa.clone().div_rem(pb);
    check!(qp_normal(&q) && qp_normal(&r), "normal form");
    check!(r.len() < b.len(), "remainder has lower degree");
    // a/ad == q*b/bd + r
    let (qn, qd) = q.clone().split_out_divisor();
    let (rn, rd) = r.clone().split_out_divisor();
    let lhs = vscale(&vscale(&vscale(a, &qd), bd), &rd);
    let rhs = vadd(&vscale(&vscale(&vmul(&qn, b), &rd), ad), &vscale(&vscale(&vscale(&rn, &qd), bd), ad));
    check!(veq(&lhs, &rhs), "a == q * b + r");
    check!(pa / pb == q && pa / pb.clone() == q && pa.clone() / pb == q && pa.clone() / pb.clone() == q, "/ in every form");
    check!(pa % pb == r && pa % pb.clone() == r && pa.clone() % pb == r && pa.clone() % pb.clone() == r, "% in every form");
    check!(CheckedDiv::checked_div(pa, pb) == Some(q.clone()), "checked_div");
    check!(CheckedRem::checked_rem(pa, pb) == Some(r.clone()), "checked_rem");
    check!(pa.clone().checked_div_rem(pb) == Some((q.clone(), r.clone())), "checked_div_rem");
    let (mut x, mut y) = (pa.clone(), pa.clone());
    x /= pb;
    y %= pb;
    check!(x == q && y == r, "/= and %=");
    let (mut x, mut y) = (pa.clone(), pa.clone());
    x /= pb.clone();
    y %= pb.clone();
    check!(x == q && y == r, "/= and %= (own)");
    let e = (pa).checked_exact_div(pb);
    check!(e == if r.is_zero() { Some(q) } else { None }, "checked_exact_div over Ratio");
}

fn ratio() {
    let na = choose("na", if thorough() { 4 } else { 3 });
    let a = any_vec("a", na);
    let ad = bi(1 + choose("ad", 2) as i64);
    let pa = QP::from((a.clone(), ad.clone()));
    let nb = 1 + choose("nb", 2);
    let b: Vec<BigInt> = (0..nb).map(|i| bi(choose(&format!("b{}", i), 6) as i64 - 2)).collect();
    let bd = bi(1 + choose("bd", 2) as i64);
    assume(!b[nb - 1].is_zero());
    let pb = QP::from((b.clone(), bd.clone()));
    ratio_division(&a, &pa, &b, &pb, &ad, &bd);
}

fn ratio_quadratic_divisor() {
    let na = 2 + choose("na", 3);
    let a = any_vec("a", na);
    let pa = QP::from((a.clone(), bi(1)));
    let b: Vec<BigInt> = (0..3).map(|i| bi(choose(&format!("b{}", i), 4) as i64 - 1)).collect();
    assume(!b[2].is_zero());
    let pb = QP::from((b.clone(), bi(1)));
    ratio_division(&a, &pa, &b, &pb, &bi(1), &bi(1));
}

fn ratio_by_zero() {
    let (_, _, pa) = any_qp("a", choose("na", 3), 3);
    let z = QP::zero();
    check!(pa.checked_div(&z).is_none() && pa.checked_rem(&z).is_none(), "checked division by zero");
    check!(pa.clone().checked_div_rem(&z).is_none() && (&pa).checked_exact_div(&z).is_none(), "checked division by zero");
    check!(pa.checked_powmod(2, &z).is_none() && pa.checked_powmod(0, &z).is_none(), "checked_powmod modulo zero");
    check!(panics(|| &pa / &z) && panics(|| &pa % &z), "division by zero panics");
}

fn ratio_coefficient() {
    let na = choose("na", if thorough() { 4 } else { 3 });
    let a = any_vec("a", na);
    let ad = bi(1 + choose("ad", 3) as i64);
    let pa = QP::from((a.clone(), ad.clone()));
    let cn = bi(choose("cn", 9) as i64 - 4);
    let cd = bi(1 + choose("cd", 3) as i64);
    assume(!cn.is_zero());
    let c = Ratio::new(cn.clone(), cd.clone());
    let q = &pa / &c;
    // sign of the numerator moves to the elements
    let (n, d) = if cn < bi(0) { (-cn.clone(), true) } else { (cn.clone(), false) };
    let mut v = vscale(&a, &cd);
    if d {
        v = v.iter().map(|x| -x).collect();
    }
    check!(is_qp(&q, &v, &(&ad * &n)), "poly / coefficient over Ratio");
    check!(&pa / c.clone() == q && pa.clone() / &c == q && pa.clone() / c.clone() == q, "poly / coefficient forms");
    check!((&pa).exact_div(&c) == q && (&pa).checked_exact_div(&c) == Some(q.clone()), "exact_div by coefficient");
    let mut r = pa.clone();
    r /= &c;
    let mut s = pa.clone();
    s.exact_div_assign(c);
    check!(r == q && s == q, "/= coefficient");
}

fn modular_division(m: i64, na: usize, nb: usize) {
    let a = any_res("a", na, m);
    let b: Vec<BigInt> = (0..nb).map(|i| bi(choose(&format!("b{}", i), m as usize) as i64)).collect();
    let m = bi(m);
    let (pa, pb) = (fp(&a, &m), fp(&b, &m));
    assume(!b[nb - 1].is_zero());
    let (q, r) = pa.clone().div_rem(&pb);
    check!(r.len() < nb, "remainder has lower degree");
    let back = vadd(&vmul(&fvals(&q), &b), &fvals(&r));
    check!(is_fp(&pa, &back, &m), "a == q * b + r mod p");
    check!(is_fp(&q, &fvals(&q), &m) && is_fp(&r, &fvals(&r), &m), "normal form");
    check!(&pa / &pb == q && &pa % &pb == r, "/ and %");
    check!(pa.checked_rem(&pb) == Some(r.clone()) && pa.checked_div(&pb) == Some(q.clone()), "checked_div, checked_rem");
    check!((&pa).checked_exact_div(&pb) == if r.is_zero() { Some(q) } else { None }, "checked_exact_div mod p");
}
const PRIMES: [i64; 4] = [2, 3, 5, 7];
fn modular() {
    let m = PRIMES[choose("m", 4)];
    modular_division(m, choose("na", 5), 1 + choose("nb", 2))
}
fn modular3() {
    let m = PRIMES[choose("m", 2)];
    modular_division(m, 2 + choose("na", 4), 3)
}

fn powmod_spec(pa: &QP, pb: &QP, e: usize) -> QP {
    let mut want = QP::from(Ratio::new(bi(1), bi(1)));
    for _ in 0..e {
        want = &want * pa;
    }
    want % pb
}
fn powmod_ratio() {
    let na = choose("na", 3);
    let a: Vec<BigInt> = int_vec("a", na, -2, 2);
    let pa = QP::from((a, bi(1)));
    let nb = 1 + choose("nb", 3);
    let b: Vec<BigInt> = (0..nb).map(|i| bi(choose(&format!("b{}", i), 3) as i64 - 1)).collect();
    assume(!b[nb - 1].is_zero());
    let pb = QP::from((b, bi(1)));
    let e = choose("e", 4);
    let want = powmod_spec(&pa, &pb, e);
    check!(pa.powmod(e, &pb) == want, "powmod is the power's remainder");
    check!(pa.checked_powmod(bi(e as i64), &pb) == Some(want), "checked_powmod");
    check!(pa.checked_powmod(-1, &pb).is_none(), "negative exponents are refused");
}
fn powmod_modular() {
    let m = PRIMES[choose("m", 3)];
    let na = choose("na", if m < 5 || thorough() { 4 } else { 3 });
    let a: Vec<BigInt> = (0..na).map(|i| bi(choose(&format!("a{}", i), m as usize) as i64)).collect();
    let nb = 1 + choose("nb", 3);
    let b: Vec<BigInt> = (0..nb).map(|i| bi(choose(&format!("b{}", i), m.min(3) as usize) as i64)).collect();
    assume(!b[nb - 1].is_zero());
    let m = bi(m);
    let (pa, pb) = (fp(&a, &m), fp(&b, &m));
    let e = choose("e", if thorough() { 7 } else { 4 });
    let mut want = fp(&[bi(1)], &m);
    for _ in 0..e {
        want = &want * &pa;
    }
    check!(pa.powmod(e, &pb) == want % pb, "powmod over a prime field");
}

/// long dividends with symbolic coefficients by fixed divisors of every degree up to 5
fn long_fixed(k: usize) -> Vec<BigInt> {
    let v: [&[i64]; 9] = [
        &[-1],
        &[3],
        &[1, 1],
        &[-2, 3],
        &[1, 0, 1],
        &[0, 0, -1],
        &[2, -1, 0, 2],
        &[1, 0, 0, 0, -1],
        &[-1, 2, 0, 0, 1, 1],
    ];
    v[k].iter().map(|&x| bi(x)).collect()
}
fn long_int() {
    let na = [5, 6, 7, 9][choose("na", 4)];
    let mut a = any_vec("a", na);
    if choose("top", 2) == 1 {
        a[na - 1] = bi(0);
    }
    let a = trim(a);
    let b = long_fixed(choose("b", 9));
    let (pa, pb) = (zp(&a), zp(&b));
    let PseudoDivRem { quotient, remainder, factor } = pa.clone().pseudo_div_rem(&pb);
    let (q, _) = quotient.clone().split_out_divisor();
    let (rem, _) = remainder.clone().split_out_divisor();
    check!(rem.len() < b.len(), "remainder has lower degree");
    check!(is_zp(&quotient, &q) && is_zp(&remainder, &rem), "normal form");
    check!(veq(&vscale(&a, &factor), &vadd(&vmul(&q, &b), &rem)), "factor * a == quotient * b + remainder");
    let mut f = bi(1);
    for _ in 0..(a.len() + 1).saturating_sub(b.len()) {
        f = f * b.last().unwrap();
    }
    check!(factor == f, "factor is the expected power of the leading coefficient");
    let p = zp(&vmul(&a, &b));
    check!((&p).checked_exact_div(&pb) == Some(pa.clone()), "exact quotient of a long product");
    check!(p.clone().div_rem(&pb) == (pa.clone(), ZP::zero()), "div_rem of a long product");
    check!(p.exact_div(pb) == pa, "exact_div of a long product");
}
fn long_ratio() {
    let na = [4, 6, 8][choose("na", 3)];
    let mut a: Vec<BigInt> = (0..na as i64).map(|i| bi((i * i * 7 + 1) % 5 - 2)).collect();
    a[na - 1] = bi(4);
    a[[0, na - 2][choose("at", 2)]] = any("s");
    let b = long_fixed(choose("b", 9));
    let ad = bi([1, 2][choose("ad", 2)]);
    let pa = QP::from((a.clone(), ad.clone()));
    let pb = QP::from((b.clone(), bi(1)));
    let (q, r) = pa.clone().div_rem(&pb);
    check!(qp_normal(&q) && qp_normal(&r) && r.len() < b.len(), "normal form and degree");
    let (qn, qd) = q.clone().split_out_divisor();
    let (rn, rd) = r.clone().split_out_divisor();
    let lhs = vscale(&vscale(&a, &qd), &rd);
    let rhs = vadd(&vscale(&vscale(&vmul(&qn, &b), &rd), &ad), &vscale(&vscale(&rn, &qd), &ad));
    check!(veq(&lhs, &rhs), "a == q * b + r");
    check!(&pa / &pb == q && &pa % &pb == r, "/ and %");
    check!(pa.checked_div_rem(&pb) == Some((q, r)), "checked_div_rem");
}
fn long_modular() {
    let m = [2i64, 3, 5, 7, 101][choose("m", 5)];
    let na = [5, 7, 9][choose("na", 3)];
    let mut a: Vec<BigInt> = (0..na as i64).map(|i| bi((i * i * 7 + 1) % m)).collect();
    a[0] = int("s", 0, m - 1);
    a[[3, na - 1][choose("at", 2)]] = int("t", 0, m - 1);
    let k = choose("b", 9);
    let m = bi(m);
    let b: Vec<BigInt> = long_fixed(k).iter().map(|x| num_integer::Integer::mod_floor(x, &m)).collect();
    assume(!b.last().unwrap().is_zero());
    let (pa, pb) = (fp(&a, &m), fp(&b, &m));
    let (q, r) = pa.clone().div_rem(&pb);
    check!(r.len() < b.len(), "remainder has lower degree");
    check!(is_fp(&pa, &vadd(&vmul(&fvals(&q), &b), &fvals(&r)), &m), "a == q * b + r mod p");
    check!(is_fp(&q, &fvals(&q), &m) && is_fp(&r, &fvals(&r), &m), "normal form");
    check!(&pa / &pb == q && &pa % &pb == r, "/ and %");
}
/// long exponents, the form factorization uses them in
fn powmod_long() {
    let m = [2i64, 3, 5, 7, 13][choose("m", 5)];
    let e = [4usize, 5, 6, 7, 8, 9, 13, 16, 25, 27, 31, 49, 64, 100][choose("e", 14)];
    let a = int_vec("a", 1, 0, m - 1);
    let a = vec![a[0].clone(), bi(1)];
    let b = long_fixed([2, 4, 7, 8][choose("b", 4)]);
    let m = bi(m);
    let a: Vec<BigInt> = a.iter().map(|x| bi(x.to_i64().unwrap())).collect();
    let (pa, pb) = (fp(&a, &m), fp(&b, &m));
    let mut want = fp(&[bi(1)], &m) % &pb;
    for _ in 0..e {
        want = want * &pa % &pb;
    }
    check!(pa.powmod(e, &pb) == want, "powmod over a prime field");
    check!(pa.checked_powmod(bi(e as i64), &pb) == Some(want), "checked_powmod over a prime field");
}

fn main() {
    main_(&[
        h("pseudo_int", pseudo_int).covers(&["exact"]),
        h("exact_product", exact_product),
        h("exact_decision", exact_decision).covers(&["refused"]),
        h("ratio", ratio),
        h("ratio_quadratic_divisor", ratio_quadratic_divisor),
        h("ratio_by_zero", ratio_by_zero),
        h("ratio_coefficient", ratio_coefficient),
        h("modular", modular),
        h("modular3", modular3),
        h("powmod_ratio", powmod_ratio),
        h("powmod_modular", powmod_modular),
        h("long_int", long_int),
        h("long_ratio", long_ratio),
        h("long_modular", long_modular),
        h("powmod_long", powmod_long),
    ])
}
