//! Polynomial evaluation and differentiation.
//! encodes: Polynomial::{eval, into_eval, eval_generic, into_eval_generic, derivative, into_derivative, convert_to_derivative}, PolynomialCoefficient::{mul_element_by_usize, mul_assign_element_by_usize}, for T = BigInt, Ratio<BigInt>, ModularInteger<BigInt, BigInt>, Polynomial<BigInt>; evaluation at intervals
//! outside: symbolic points with more than 5 (integers) / 3 (ratios, modular) coefficients; up to 17 symbolic coefficients only at 7 fixed points (evaluation) and up to 33 (derivative); ratios beyond 3 coefficients have one symbolic; numerators of evaluation points for ratios outside -4..4 and denominators above 3
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use algebraics::polynomial::Polynomial;
use num_traits::Zero;
use verif_harness::spec::*;
use verif_harness::*;

fn eval_int() {
    let (a, p) = any_zp("a", choose("n", 6));
    let x = any("x");
    let want = veval(&a, &x);
    check!(p.eval(&x) == want, "eval");
    check!(p.clone().into_eval(&x) == want, "into_eval");
    check!(p.eval_generic(&x, bi(0)) == want, "eval_generic");
    check!(p.into_eval_generic(&x, bi(0)) == want, "into_eval_generic");
}

fn eval_ratio() {
    let n = choose("n", 4);
    let v = any_vec("a", n);
    let d = bi(1 + choose("d", 3) as i64);
    let p = QP::from((v.clone(), d.clone()));
    let xn = bi(choose("xn", 9) as i64 - 4);
    let xd = bi(1 + choose("xd", 3) as i64);
    let x = Ratio::new(xn.clone(), xd.clone());
    let r = p.eval(&x);
    // r * d * xd^(n-1) == sum v_i xn^i xd^(n-1-i)
    let mut num = bi(0);
    let mut scale = bi(1);
    for (i, c) in v.iter().enumerate() {
        if i > 0 {
            scale = scale * &xd;
            num = num * &xd;
        }
        let mut t = c.clone();
        for _ in 0..i {
            t = t * &xn;
        }
        num = num + t;
    }
    check!(r.numer() * d * scale == num * r.denom(), "eval over Ratio");
    check!(canonical(&r), "eval over Ratio gives a reduced value");
    check!(p.clone().into_eval(&x) == r, "into_eval over Ratio");
    check!(p.into_eval_generic(&x, Ratio::zero()) == r, "into_eval_generic over Ratio");
}

fn eval_modular() {
    let m = 2 + choose("m", 6) as i64;
    let a = any_res("a", choose("n", 4), m);
    let x = int("x", 0, m - 1);
    let m = bi(m);
    let p = mp(&a, &m);
    let want = mi(&veval(&a, &x), &m);
    check!(p.eval(&mi(&x, &m)) == want, "eval mod m");
    check!(p.into_eval(&mi(&x, &m)) == want, "into_eval mod m");
}

/// evaluating an integer polynomial at an interval encloses its value at every point
fn eval_interval() {
    let n = choose("n", 4);
    let v: Vec<BigInt> = (0..n).map(|i| bi(choose(&format!("a{}", i), 4) as i64 - 2)).collect();
    let p = zp(&v);
    let ld = choose("ld", 3);
    let lo = int("lo", -9, 9);
    let hi = int("hi", -9, 9);
    let x = int("x", -9, 9);
    assume(lo <= x && x <= hi);
    let r = p.eval_generic(&D::new(lo, hi, ld), D::from_int(bi(0), ld));
    check!(r.log2_denom() == ld, "log2_denom kept");
    // value * 2^(ld*(n-1)), bounds scaled alike
    let k = n.saturating_sub(1);
    let mut val = bi(0);
    for (i, c) in v.iter().enumerate() {
        let mut t = c.clone() << (ld * (k - i));
        for _ in 0..i {
            t = t * &x;
        }
        val = val + t;
    }
    // bounds are numer/2^ld; val/2^(ld k)
    let val = val << ld;
    check!(r.lower_bound_numer() << (ld * k) <= val, "interval value: lower bound");
    check!(r.upper_bound_numer() << (ld * k) >= val, "interval value: upper bound");
}

/// long polynomials with symbolic coefficients at fixed points, and fixed ones at symbolic points
fn eval_long() {
    let n = [6, 7, 8, 9, 17][choose("n", 5)];
    let a = any_vec("a", n);
    let p = zp(&a);
    let x = bi([0, 1, -1, 2, -3, 10, 1i64 << 40][choose("x", 7)]);
    let want = veval(&a, &x);
    check!(p.eval(&x) == want, "eval");
    check!(p.clone().into_eval(&x) == want, "into_eval");
    check!(p.eval_generic(&x, bi(0)) == want, "eval_generic");
    check!(p.into_eval_generic(&x, bi(0)) == want, "into_eval_generic");
}
fn eval_long_ratio() {
    let n = [4, 6][choose("n", 2)];
    let mut v: Vec<BigInt> = (0..n as i64).map(|i| bi((i * i * 7 + 1) % 5 - 2)).collect();
    v[n - 1] = bi(4);
    v[[0, n - 2][choose("at", 2)]] = any("s");
    let d = bi([1, 3][choose("d", 2)]);
    let (xn, xd) = [(0, 1), (1, 1), (-2, 1), (-1, 2)][choose("x", if n == 4 { 4 } else { 3 })];
    let x = Ratio::new(bi(xn), bi(xd));
    let p = QP::from((v.clone(), d.clone()));
    let (mut num, mut scale) = (bi(0), bi(1));
    for c in v.iter().rev() {
        // c * xd^k + num * xn over xd^k, reading from the top
        num = c * &scale + num * bi(xn);
        scale = scale * bi(xd);
    }
    // p(x) = num / (d * xd^(n-1))
    let r = p.eval(&x);
    check!(r.numer() * d * scale == num * r.denom() * bi(xd), "eval over Ratio");
    check!(canonical(&r), "reduced");
    check!(p.clone().into_eval(&x) == r, "into_eval over Ratio");
    check!(p.eval_generic(&x, Ratio::zero()) == r, "eval_generic over Ratio");
}
fn eval_long_modular() {
    let m = [2i64, 3, 10, 101][choose("m", 4)];
    let n = [5, 6, 9][choose("n", 3)];
    let a = any_res("a", n, m);
    let x = bi([0, 1, m - 1, m / 2][choose("x", 4)]);
    let m = bi(m);
    let p = mp(&a, &m);
    let want = mi(&veval(&a, &x), &m);
    check!(p.eval(&mi(&x, &m)) == want, "eval mod m");
    check!(p.into_eval(&mi(&x, &m)) == want, "into_eval mod m");
}
fn deriv_long() {
    let n = [7, 9, 17, 33][choose("n", 4)];
    let a = any_vec("a", n);
    assume(a[n - 1] != bi(0));
    let want = vderiv(&a);
    let p = zp(&a);
    check!(is_zp(&p.derivative(), &want), "derivative");
    check!(is_zp(&p.into_derivative(), &want), "into_derivative");
    let d = bi([1, 6][choose("d", 2)]);
    let mut v: Vec<BigInt> = (0..n as i64).map(|i| bi(i % 5 - 2)).collect();
    v[n - 1] = bi(7);
    v[choose("at", n)] = any("s");
    let p = QP::from((v.clone(), d.clone()));
    let want = vderiv(&v);
    check!(is_qp(&p.derivative(), &want, &d), "derivative over Ratio");
}
/// over GF(2) and GF(3) whole runs of terms vanish
fn deriv_long_modular() {
    let m = [2i64, 3, 5][choose("m", 3)];
    let n = [7, 8, 9, 10, 11][choose("n", 5)];
    let mut a: Vec<BigInt> = (0..n).map(|_| bi(0)).collect();
    for k in [0, 1, 2, n - 3, n - 2, n - 1] {
        a[k] = int(&format!("a{}", k), 0, m - 1);
    }
    let m = bi(m);
    let p = mp(&a, &m);
    let want = vderiv(&a);
    let r = p.derivative();
    if r.len() + 3 < p.len() {
        cover("several leading terms vanish")
    }
    check!(is_mp(&r, &want, &m), "derivative mod m");
    check!(is_mp(&p.into_derivative(), &want, &m), "into_derivative mod m");
}

fn deriv_int() {
    let (a, p) = any_zp("a", choose("n", 6));
    let want = vderiv(&a);
    check!(is_zp(&p.derivative(), &want), "derivative");
    check!(is_zp(&p.into_derivative(), &want), "into_derivative");
}

fn deriv_ratio() {
    let (v, d, p) = any_qp("a", choose("n", 4), 4);
    let want = vderiv(&v);
    let r = p.derivative();
    check!(is_qp(&r, &want, &d), "derivative over Ratio");
    check!(p.into_derivative() == r, "into_derivative over Ratio");
}

fn deriv_modular() {
    let m = 2 + choose("m", 4) as i64;
    let n = choose("n", if thorough() { 8 } else { 6 });
    let a = any_res("a", n, m);
    let m = bi(m);
    let p = mp(&a, &m);
    let want = vderiv(&a);
    let r = p.derivative();
    if r.len() + 1 < p.len() {
        cover("leading term vanishes")
    }
    check!(is_mp(&r, &want, &m), "derivative mod m");
    check!(is_mp(&p.into_derivative(), &want, &m), "into_derivative mod m");
}

fn nested() {
    let n = choose("n", 4);
    let vs: Vec<Vec<BigInt>> = (0..n).map(|i| any_vec(&format!("a{}_", i), 2)).collect();
    let p: Polynomial<ZP> = vs.iter().map(|v| zp(v)).collect::<Vec<_>>().into();
    let want: Polynomial<ZP> = vs
        .iter()
        .enumerate()
        .skip(1)
        .map(|(i, v)| zp(&vscale(v, &bi(i as i64))))
        .collect::<Vec<_>>()
        .into();
    check!(p.derivative() == want, "nested derivative");
    check!(p.clone().into_derivative() == want, "nested into_derivative");
    let x = any_vec("x", 2);
    let mut r = vec![];
    for c in vs.iter().rev() {
        r = vadd(&vmul(&r, &x), c);
    }
    check!(is_zp(&p.eval(&zp(&x)), &r), "nested eval");
}

fn main() {
    main_(&[
        h("eval_int", eval_int),
        h("eval_ratio", eval_ratio),
        h("eval_modular", eval_modular),
        h("eval_interval", eval_interval),
        h("deriv_int", deriv_int),
        h("deriv_ratio", deriv_ratio),
        h("deriv_modular", deriv_modular).covers(&["leading term vanishes"]),
        h("nested", nested),
        h("eval_long", eval_long),
        h("eval_long_ratio", eval_long_ratio),
        h("eval_long_modular", eval_long_modular),
        h("deriv_long", deriv_long),
        h("deriv_long_modular", deriv_long_modular).covers(&["several leading terms vanish"]),
    ])
}
