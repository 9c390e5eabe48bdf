//! Polynomial addition, subtraction and negation, with polynomials and with coefficients.
//! encodes: polynomial::add_sub::{add_sub_assign, add_sub_assign_single}, Add/AddAssign/Sub/SubAssign<Polynomial<T> | T> for Polynomial<T> and &Polynomial<T>, CheckedAdd, CheckedSub, Neg, negate, normalize, reduce_divisor, for T = BigInt, Ratio<BigInt>, ModularInteger<BigInt, BigInt>, Polynomial<BigInt>
//! outside: both operands symbolic beyond 4 (integers) / 2 (ratios, quick) / 3 (ratios, thorough) / 3 (modular) coefficients (one symbolic operand of up to 33 integer coefficients with fixed and partly equal ones, one symbolic of 7 for ratios); denominators above 4; moduli other than 2..7
use num_traits::{CheckedAdd, CheckedSub};
use verif_harness::spec::*;
use verif_harness::*;

macro_rules! forms {
    ($a:expr, $b:expr, $op:tt, $opa:tt, $ok:expr, $what:expr) => {{
        let (a, b) = (&$a, &$b);
        let ok = $ok;
        check!(ok(&(a $op b)), "{} (&,&)", $what);
        check!(ok(&(a $op b.clone())), "{} (&,own)", $what);
        check!(ok(&(a.clone() $op b)), "{} (own,&)", $what);
        check!(ok(&(a.clone() $op b.clone())), "{} (own,own)", $what);
        let mut r = a.clone();
        r $opa b;
        check!(ok(&r), "{} (assign &)", $what);
        let mut r = a.clone();
        r $opa b.clone();
        check!(ok(&r), "{} (assign own)", $what);
    }};
}

fn int_poly() {
    let (a, pa) = any_zp("a", choose("na", 5));
    let (b, pb) = any_zp("b", choose("nb", 5));
    let s = vadd(&a, &b);
    forms!(pa, pb, +, +=, |r: &ZP| is_zp(r, &s), "poly + poly");
    let d = vsub(&a, &b);
    forms!(pa, pb, -, -=, |r: &ZP| is_zp(r, &d), "poly - poly");
    check!(is_zp(&pa.checked_add(&pb).unwrap(), &s), "checked_add");
    check!(is_zp(&pa.checked_sub(&pb).unwrap(), &d), "checked_sub");
    if a.len() == b.len() && trim(d).len() < a.len() {
        cover("leading terms cancel")
    }
}

fn int_neg_coefficient() {
    let (a, pa) = any_zp("a", choose("na", 5));
    let n: Vec<BigInt> = a.iter().map(|c| -c).collect();
    check!(is_zp(&-&pa, &n), "-&poly");
    check!(is_zp(&-pa.clone(), &n), "-poly");
    let mut r = pa.clone();
    r.negate();
    check!(is_zp(&r, &n), "negate");
    let c = any("c");
    let cv = [c.clone()];
    let s = vadd(&a, &cv);
    forms!(pa, c, +, +=, |r: &ZP| is_zp(r, &s), "poly + coefficient");
    let d = vsub(&a, &cv);
    forms!(pa, c, -, -=, |r: &ZP| is_zp(r, &d), "poly - coefficient");
}

fn rlen() -> usize {
    if thorough() {
        4
    } else {
        3
    }
}

fn ratio_poly() {
    let (a, ad, pa) = any_qp("a", choose("na", rlen()), 3);
    let (b, bd, pb) = any_qp("b", choose("nb", rlen()), 3);
    let d = &ad * &bd;
    let (x, y) = (vscale(&a, &bd), vscale(&b, &ad));
    let s = vadd(&x, &y);
    let t = vsub(&x, &y);
    let sum = &pa + &pb;
    check!(is_qp(&sum, &s, &d), "poly + poly over Ratio");
    forms!(pa, pb, +, +=, |r: &QP| *r == sum, "poly + poly over Ratio");
    let dif = &pa - &pb;
    check!(is_qp(&dif, &t, &d), "poly - poly over Ratio");
    forms!(pa, pb, -, -=, |r: &QP| *r == dif, "poly - poly over Ratio");
}

fn ratio_coefficient() {
    let (a, ad, pa) = any_qp("a", choose("na", 3), 4);
    let (n, cd, c) = any_ratio("c", 4);
    let d = &ad * &cd;
    let x = vscale(&a, &cd);
    let y = [n * &ad];
    let (s, t) = (vadd(&x, &y), vsub(&x, &y));
    let sum = &pa + &c;
    check!(is_qp(&sum, &s, &d), "poly + coefficient over Ratio");
    forms!(pa, c, +, +=, |r: &QP| *r == sum, "poly + coefficient over Ratio");
    let dif = &pa - &c;
    check!(is_qp(&dif, &t, &d), "poly - coefficient over Ratio");
    forms!(pa, c, -, -=, |r: &QP| *r == dif, "poly - coefficient over Ratio");
}

fn ratio_neg() {
    let (a, ad, pa) = any_qp("a", choose("na", 4), 4);
    let n: Vec<BigInt> = a.iter().map(|c| -c).collect();
    check!(is_qp(&-&pa, &n, &ad), "-&poly over Ratio");
    check!(is_qp(&-pa.clone(), &n, &ad), "-poly over Ratio");
    let mut r = pa;
    r.negate();
    check!(is_qp(&r, &n, &ad), "negate over Ratio");
}

fn modular() {
    let m = 2 + choose("m", 6) as i64;
    let a = any_res("a", choose("na", 4), m);
    let b = any_res("b", choose("nb", 4), m);
    let c = int("c", 0, m - 1);
    let m = bi(m);
    let (pa, pb) = (mp(&a, &m), mp(&b, &m));
    let s = vadd(&a, &b);
    forms!(pa, pb, +, +=, |r: &MP| is_mp(r, &s, &m), "poly + poly mod m");
    let d = vsub(&a, &b);
    forms!(pa, pb, -, -=, |r: &MP| is_mp(r, &d, &m), "poly - poly mod m");
    let n: Vec<BigInt> = a.iter().map(|c| -c).collect();
    check!(is_mp(&-&pa, &n, &m) && is_mp(&-pa.clone(), &n, &m), "-poly mod m");
    let mut r = pa.clone();
    r.negate();
    check!(is_mp(&r, &n, &m), "negate mod m");
    let k = mi(&c, &m);
    let cv = [c];
    let s = vadd(&a, &cv);
    forms!(pa, k, +, +=, |r: &MP| is_mp(r, &s, &m), "poly + coefficient mod m");
    let d = vsub(&a, &cv);
    forms!(pa, k, -, -=, |r: &MP| is_mp(r, &d, &m), "poly - coefficient mod m");
}

type NP = algebraics::polynomial::Polynomial<ZP>;
fn is_np(p: &NP, v: &[Vec<BigInt>]) -> bool {
    p.len() <= v.len()
        && (0..v.len()).all(|i| is_zp(&p.coefficient(i), &v[i]))
        && p.iter().last().map_or(true, |c| c.len() != 0)
}
fn nested() {
    let mk = |n: &str, k: usize| -> (Vec<Vec<BigInt>>, NP) {
        let v: Vec<Vec<BigInt>> = (0..k).map(|i| any_vec(&format!("{}{}_", n, i), 2)).collect();
        let p = v.iter().map(|v| zp(v)).collect::<Vec<_>>().into();
        (v, p)
    };
    let (a, pa) = mk("a", choose("na", 3));
    let (b, pb) = mk("b", choose("nb", 3));
    let z = vec![];
    let g = |v: &Vec<Vec<BigInt>>, i: usize| v.get(i).unwrap_or(&z).clone();
    let k = a.len().max(b.len());
    let s: Vec<_> = (0..k).map(|i| vadd(&g(&a, i), &g(&b, i))).collect();
    forms!(pa, pb, +, +=, |r: &NP| is_np(r, &s), "nested +");
    let d: Vec<_> = (0..k).map(|i| vsub(&g(&a, i), &g(&b, i))).collect();
    forms!(pa, pb, -, -=, |r: &NP| is_np(r, &d), "nested -");
}

/// long operands of equal and of very different lengths, cancelling runs at the top
fn long_int() {
    let na = [5, 8, 16, 33][choose("na", 4)];
    let nb = [1, 5, 8, 16, 33][choose("nb", 5)];
    let a = any_vec("a", na);
    assume(a[na - 1] != bi(0));
    let mut b: Vec<BigInt> = (0..nb as i64).map(|i| bi((i * i * 7 + 3) % 11 - 5)).collect();
    b[nb - 1] = bi(9);
    if na == nb {
        let k = [0, 1, 3, nb][choose("same", 4)];
        for i in nb - k..nb {
            b[i] = a[i].clone();
        }
    }
    let (pa, pb) = (zp(&a), zp(&b));
    let (s, d) = (vadd(&a, &b), vsub(&a, &b));
    check!(is_zp(&(&pa + &pb), &s) && is_zp(&(&pb + &pa), &s), "long poly + poly");
    check!(is_zp(&(pa.clone() + pb.clone()), &s) && is_zp(&(pb.clone() + &pa), &s), "long poly + poly");
    let e: Vec<BigInt> = d.iter().map(|c| -c).collect();
    check!(is_zp(&(&pa - &pb), &d) && is_zp(&(&pb - &pa), &e), "long poly - poly");
    check!(is_zp(&(pa.clone() - pb.clone()), &d) && is_zp(&(pb - &pa), &e), "long poly - poly");
    if na == nb && trim(d).len() + 2 < na {
        cover("a run cancels")
    }
}
fn long_ratio() {
    let na = [4, 7][choose("na", 2)];
    let nb = [3, 7][choose("nb", 2)];
    let f = |n: usize, k: i64| -> Vec<BigInt> { (0..n as i64).map(|i| if i + 1 == n as i64 { bi(k) } else { bi((i * i * 7 + k) % 5 - 2) }).collect() };
    let mut a = f(na, 3);
    let b = f(nb, [4, -1][choose("k", 2)]);
    a[[0, na - 1][choose("at", 2)]] = any("s");
    let (ad, bd) = (bi([1, 2, 6][choose("ad", 3)]), bi([1, 3, 4][choose("bd", 3)]));
    let (pa, pb) = (QP::from((a.clone(), ad.clone())), QP::from((b.clone(), bd.clone())));
    let d = &ad * &bd;
    let (x, y) = (vscale(&a, &bd), vscale(&b, &ad));
    check!(is_qp(&(&pa + &pb), &vadd(&x, &y), &d), "long poly + poly over Ratio");
    check!(is_qp(&(&pa - &pb), &vsub(&x, &y), &d), "long poly - poly over Ratio");
    check!(is_qp(&(pb - pa), &vsub(&y, &x), &d), "long poly - poly over Ratio");
}

fn main() {
    main_(&[
        h("int_poly", int_poly).covers(&["leading terms cancel"]),
        h("int_neg_coefficient", int_neg_coefficient),
        h("ratio_poly", ratio_poly),
        h("ratio_coefficient", ratio_coefficient),
        h("ratio_neg", ratio_neg),
        h("modular", modular),
        h("nested", nested),
        h("long_int", long_int).covers(&["a run cancels"]),
        h("long_ratio", long_ratio),
    ])
}
