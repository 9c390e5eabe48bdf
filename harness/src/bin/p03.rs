//! Polynomial multiplication and powers.
//! encodes: Mul/MulAssign<Polynomial<T> | T> for Polynomial<T> and &Polynomial<T>, CheckedMul, mul_single, mul_assign_single, Pow (checked_pow), normalize, for T = BigInt, Ratio<BigInt>, ModularInteger<BigInt, BigInt>, Polynomial<BigInt>
//! outside: both operands symbolic beyond 4 (integers) / 3 (ratios) / 3 (modular) coefficients; one symbolic operand of up to 9 (quick) / 17 (thorough) integer coefficients times fixed ones of up to 12, or one to two symbolic coefficients among up to 9 (ratios, modular); exponents above 5 (degree 1) / 3 (degree 2), except 6..31 at fixed and one-coefficient bases; the 0th power of the zero polynomial (refused by a panic)
use num_traits::{CheckedMul, Pow};
use verif_harness::spec::*;
use verif_harness::*;

macro_rules! forms {
    ($a:expr, $b:expr, $ok:expr, $what:expr) => {{
        let (a, b) = (&$a, &$b);
        let ok = $ok;
        check!(ok(&(a * b)), "{} (&,&)", $what);
        check!(ok(&(a * b.clone())), "{} (&,own)", $what);
        check!(ok(&(a.clone() * b)), "{} (own,&)", $what);
        check!(ok(&(a.clone() * b.clone())), "{} (own,own)", $what);
        let mut r = a.clone();
        r *= b;
        check!(ok(&r), "{} (assign &)", $what);
        let mut r = a.clone();
        r *= b.clone();
        check!(ok(&r), "{} (assign own)", $what);
    }};
}

fn int_poly() {
    let (a, pa) = any_zp("a", choose("na", 5));
    let (b, pb) = any_zp("b", choose("nb", 5));
    let m = vmul(&a, &b);
    forms!(pa, pb, |r: &ZP| is_zp(r, &m), "poly * poly");
    check!(is_zp(&pa.checked_mul(&pb).unwrap(), &m), "checked_mul");
    let c = any("c");
    let m = vscale(&a, &c);
    forms!(pa, c, |r: &ZP| is_zp(r, &m), "poly * coefficient");
}

/// n elements over a common divisor chosen from 1..=max_den
fn common(name: &str, n: usize, v: Vec<BigInt>, max_den: usize) -> (Vec<BigInt>, BigInt, QP) {
    let _ = n;
    let d = bi(1 + choose(&format!("{}_d", name), max_den) as i64);
    let p = QP::from((v.clone(), d.clone()));
    (v, d, p)
}

fn ratio_products(a: (Vec<BigInt>, BigInt, QP), b: (Vec<BigInt>, BigInt, QP)) {
    let (a, ad, pa) = a;
    let (b, bd, pb) = b;
    let m = vmul(&a, &b);
    let d = ad * bd;
    let p = &pa * &pb;
    check!(is_qp(&p, &m, &d), "poly * poly over Ratio");
    forms!(pa, pb, |r: &QP| *r == p, "poly * poly over Ratio");
}

/// both operands symbolic
fn ratio_poly() {
    let n = choose("na", 3);
    let a = common("a", n, any_vec("a", n), 2);
    let n = choose("nb", 3);
    assume(thorough() || a.0.len() + n < 4);
    let b = common("b", n, any_vec("b", n), 2);
    ratio_products(a, b);
}

/// one operand symbolic with more denominators, the other from a small range
fn ratio_poly_small() {
    let n = choose("na", 3);
    let a = common("a", n, any_vec("a", n), 4);
    let n = choose("nb", 3);
    let v: Vec<BigInt> = (0..n).map(|i| bi(choose(&format!("b{}", i), 4) as i64 - 1)).collect();
    let b = common("b", n, v, 3);
    ratio_products(a, b);
}

fn ratio_coefficient() {
    let na = choose("na", 3);
    let (a, ad, pa) = common("a", na, any_vec("a", na), 2);
    let (n, cd, c) = any_ratio("c", 2);
    let m = vscale(&a, &n);
    let d = ad * cd;
    let p = &pa * &c;
    check!(is_qp(&p, &m, &d), "poly * coefficient over Ratio");
    forms!(pa, c, |r: &QP| *r == p, "poly * coefficient over Ratio");
}

fn modular() {
    let m = 2 + choose("m", 5) as i64;
    let a = any_res("a", choose("na", 4), m);
    let b = any_res("b", choose("nb", 3), m);
    let m = bi(m);
    let (pa, pb) = (mp(&a, &m), mp(&b, &m));
    let s = vmul(&a, &b);
    let p = &pa * &pb;
    check!(is_mp(&p, &s, &m), "poly * poly mod m");
    forms!(pa, pb, |r: &MP| *r == p, "poly * poly mod m");
}

fn modular_coefficient() {
    let m = 2 + choose("m", 5) as i64;
    let a = any_res("a", choose("na", 4), m);
    let c = int("c", 0, m - 1);
    let m = bi(m);
    let pa = mp(&a, &m);
    let s = vscale(&a, &c);
    forms!(pa, mi(&c, &m), |r: &MP| is_mp(r, &s, &m), "poly * coefficient mod m");
}

type NP = algebraics::polynomial::Polynomial<ZP>;
fn nested() {
    let mk = |n: &str, k: usize| -> (Vec<Vec<BigInt>>, NP) {
        let v: Vec<Vec<BigInt>> = (0..k).map(|i| any_vec(&format!("{}{}_", n, i), 2)).collect();
        let p = v.iter().map(|v| zp(v)).collect::<Vec<_>>().into();
        (v, p)
    };
    let (a, pa) = mk("a", choose("na", 3));
    let (b, pb) = mk("b", choose("nb", 3));
    let mut m: Vec<Vec<BigInt>> = vec![];
    for i in 0..a.len() {
        for j in 0..b.len() {
            while m.len() <= i + j {
                m.push(vec![]);
            }
            m[i + j] = vadd(&m[i + j], &vmul(&a[i], &b[j]));
        }
    }
    let ok = |p: &NP| {
        p.len() <= m.len()
            && (0..m.len()).all(|i| is_zp(&p.coefficient(i), &m[i]))
            && p.iter().last().map_or(true, |c| c.len() != 0)
    };
    forms!(pa, pb, ok, "nested *");
}

fn power() {
    let n = 1 + choose("n", 3);
    let e = choose("e", [8, 6, 4][n - 1]);
    let (a, pa) = any_zp("a", n);
    assume(e > 0 || !a.is_empty());
    let mut m = vec![bi(1)];
    for _ in 0..e {
        m = vmul(&m, &a);
    }
    check!(is_zp(&(&pa).pow(e), &m), "(&p).pow(usize)");
    check!(is_zp(&pa.clone().pow(e as u8), &m), "p.pow(u8)");
    check!(is_zp(&pa.clone().pow(bi(e as i64)), &m), "p.pow(BigInt)");
}

fn power_ratio() {
    let e = choose("e", 4);
    let na = choose("na", 3);
    let (_, _, pa) = common("a", na, int_vec("a", na, -3, 3), 3);
    assume(e > 0 || pa.len() != 0);
    let mut want = QP::from(Ratio::new(bi(1), bi(1)));
    for _ in 0..e {
        want = &want * &pa;
    }
    check!((&pa).pow(e) == want, "power over Ratio is the repeated product");
    check!(pa.pow(e as i64) == want, "power over Ratio is the repeated product");
}

fn power_modular() {
    let e = choose("e", 6);
    let q = 2 + choose("m", 4) as i64;
    let b = any_res("b", choose("nb", 3), q);
    let q = bi(q);
    let pb = mp(&b, &q);
    assume(e > 0 || pb.len() != 0);
    let mut want = mp(&[bi(1)], &q);
    for _ in 0..e {
        want = &want * &pb;
    }
    check!((&pb).pow(e as u32) == want, "power mod m is the repeated product");
}


/// coefficients for long polynomials, with zeros among them
fn pattern(n: usize, k: i64) -> Vec<BigInt> {
    (0..n as i64).map(|i| if i + 1 == n as i64 { bi(k) } else { bi((i * i * 7 + k * i) % 5 - 2) }).collect()
}

/// a long operand with symbolic coefficients times a long fixed one
fn long_int() {
    let na = [5, 7, 9, 17][choose("na", if thorough() { 4 } else { 3 })];
    let nb = [1, 2, 5, 8, 12][choose("nb", 5)];
    let mut a = any_vec("a", na);
    if choose("a_top", 2) == 1 {
        a[na - 1] = bi(-3);
    } else {
        assume(a[na - 1] != bi(0));
    }
    let b = pattern(nb, [1, -4][choose("k", 2)]);
    let (pa, pb) = (zp(&a), zp(&b));
    let m = vmul(&a, &b);
    forms!(pa, pb, |r: &ZP| is_zp(r, &m), "long poly * poly");
    forms!(pb, pa, |r: &ZP| is_zp(r, &m), "poly * long poly");
}
fn long_ratio() {
    let na = [4, 6, 8][choose("na", 3)];
    let nb = [2, 5, 7][choose("nb", 3)];
    let mut a = pattern(na, 3);
    a[choose("at", na)] = any("s");
    let b = pattern(nb, -4);
    let (ad, bd) = (bi([1, 6, 35][choose("ad", 3)]), bi([1, 4, 9][choose("bd", 3)]));
    let (pa, pb) = (QP::from((a.clone(), ad.clone())), QP::from((b.clone(), bd.clone())));
    let m = vmul(&a, &b);
    check!(is_qp(&(&pa * &pb), &m, &(&ad * &bd)), "long poly * poly over Ratio");
    check!(is_qp(&(pb * pa), &m, &(&ad * &bd)), "long poly * poly over Ratio");
}
fn long_modular() {
    let q = [2i64, 6, 101, 65537][choose("m", 4)];
    let na = [4, 6, 9][choose("na", 3)];
    let nb = [4, 7][choose("nb", 2)];
    let mut a = pattern(na, 5);
    a[0] = int("s", 0, q - 1);
    a[na - 1] = int("t", 0, q - 1);
    let b = pattern(nb, q / 2);
    let q = bi(q);
    let r = |v: &[BigInt]| -> Vec<BigInt> { v.iter().map(|x| num_integer::Integer::mod_floor(x, &q)).collect() };
    let (a, b) = (r(&a), r(&b));
    let (pa, pb) = (mp(&a, &q), mp(&b, &q));
    let m = vmul(&a, &b);
    check!(is_mp(&(&pa * &pb), &m, &q), "long poly * poly mod m");
    check!(is_mp(&(pb * pa), &m, &q), "long poly * poly mod m");
}
/// long exponents
fn power_long() {
    let e = [6usize, 7, 8, 11, 13, 16, 21, 31][choose("e", 8)];
    let a: Vec<BigInt> = match choose("base", 5) {
        0 => vec![any("s")],
        1 => vec![bi(0), any("s")],
        2 => vec![bi(-1), bi(1)],
        3 => vec![bi(2), bi(0), bi(-3)],
        _ => vec![bi(1), bi(-1), bi(1)],
    };
    let a = trim(a);
    let mut m = vec![bi(1)];
    for _ in 0..e {
        m = vmul(&m, &a);
    }
    let p = zp(&a);
    check!(is_zp(&(&p).pow(e), &m), "(&p).pow(usize)");
    check!(is_zp(&p.clone().pow(e as u8), &m), "p.pow(u8)");
    check!(is_zp(&p.pow(bi(e as i64)), &m), "p.pow(BigInt)");
}
fn power_long_fields() {
    let e = [6usize, 7, 8, 11, 13, 16, 21, 31][choose("e", 8)];
    let k = choose("k", 7) as i64 - 3;
    let a = trim(match choose("base", 3) {
        0 => vec![bi(k)],
        1 => vec![bi(k), bi(1)],
        _ => vec![bi(1), bi(k), bi(-3)],
    });
    let mut m = vec![bi(1)];
    for _ in 0..e {
        m = vmul(&m, &a);
    }
    let q = QP::from((a.clone(), bi(2)));
    check!(is_qp(&q.pow(e), &m, &pow2(e)), "long power over Ratio");
    let seven = bi(7);
    check!(is_mp(&mp(&a, &seven).pow(e), &m, &seven), "long power mod 7");
}

fn main() {
    main_(&[
        h("int_poly", int_poly),
        h("ratio_poly", ratio_poly),
        h("ratio_poly_small", ratio_poly_small),
        h("ratio_coefficient", ratio_coefficient),
        h("modular", modular),
        h("modular_coefficient", modular_coefficient),
        h("nested", nested),
        h("power", power),
        h("power_ratio", power_ratio),
        h("power_modular", power_modular),
        h("long_int", long_int),
        h("long_ratio", long_ratio),
        h("long_modular", long_modular),
        h("power_long", power_long),
        h("power_long_fields", power_long_fields),
    ])
}
