//! Printed forms, hashes and conversions to and from machine numbers.
//! crate: full
//! encodes: Display for Polynomial<T>, PolynomialFactor<T>, DyadicFractionInterval, ModularInteger, KnownPrime, KnownOdd, PolynomialIsZero; Debug for DyadicFractionInterval, RealAlgebraicNumber, RealAlgebraicNumberData; get_variable_name; PartialEq and Hash of Polynomial, ModularInteger, DyadicFractionInterval, RealAlgebraicNumberData; FromPrimitive and ToPrimitive for Polynomial<T>
//! outside: more than 4 coefficients (3 nested), nesting beyond three variables, variable names beyond the first 800; the digits of an integer (num-bigint's own printing); formatting flags; conversions: listed values around the limits of each machine type
#[path = "../ran.rs"]
#[allow(dead_code)]
mod ran;
use algebraics::interval_arithmetic::DyadicFractionInterval as DFI;
use algebraics::mod_int::{KnownOdd, KnownPrime};
use algebraics::polynomial::{get_variable_name, Polynomial, PolynomialFactor, PolynomialIsZero};
use num_integer::Integer;
use num_traits::{FromPrimitive, One, ToPrimitive, Zero};
use ran::*;
use verif_harness::spec::Part::{S, T, V};
use verif_harness::spec::*;
use verif_harness::*;

/// c0 + c1*X + c2*X^2 ...
fn join(terms: Vec<Vec<Part>>, var: &'static str, paren: bool) -> Vec<Part> {
    let mut r = vec![];
    if terms.is_empty() {
        r.push(T("0"));
    }
    for (i, t) in terms.into_iter().enumerate() {
        if i > 0 {
            r.push(T(" + "));
            if paren {
                r.push(T("("));
            }
        }
        r.extend(t);
        if i > 0 {
            if paren {
                r.push(T(")"));
            }
            r.push(T("*"));
            r.push(T(var));
        }
        if i > 1 {
            r.push(S(format!("^{}", i)));
        }
    }
    r
}
fn int_parts(a: &[BigInt]) -> Vec<Part> {
    join(a.iter().map(|c| vec![V(c.clone())]).collect(), "X", false)
}
fn integer_polynomials() {
    let (a, p) = any_zp("a", choose("n", 5));
    check!(prints(|| p.to_string(), &int_parts(&a)), "printed integer polynomial");
    let power = choose("power", 4);
    let mut parts = vec![T("(")];
    parts.extend(int_parts(&a));
    parts.push(S(format!(")^{}", power)));
    let f = PolynomialFactor { polynomial: p, power };
    check!(prints(|| f.to_string(), &parts), "printed factor");
}
fn ratio_parts(q: &Ratio<BigInt>) -> Vec<Part> {
    if q.denom().is_one() {
        vec![V(q.numer().clone())]
    } else {
        vec![V(q.numer().clone()), T("/"), V(q.denom().clone())]
    }
}
fn ratio_polynomials() {
    let n = choose("n", 4);
    let mut v: Vec<Ratio<BigInt>> = (0..n).map(|i| any_ratio(&format!("a{}", i), 2).2).collect();
    let p = QP::from(v.clone());
    while v.last().map_or(false, |c| c.numer().is_zero()) {
        v.pop();
    }
    let parts = join(v.iter().map(ratio_parts).collect(), "X", false);
    check!(prints(|| p.to_string(), &parts), "printed rational polynomial");
}
fn modular_polynomials() {
    let m = bi(2 + choose("m", 4) as i64);
    let n = choose("n", 4);
    let a = any_vec("a", n);
    assume(a.iter().all(|c| *c >= bi(0) && *c < m));
    let p = mp(&a, &m);
    let one = |c: &BigInt| vec![T("mod_int("), V(c.clone()), T(", "), V(m.clone()), T(")")];
    if let Some(c) = a.first() {
        check!(prints(|| mi(c, &m).to_string(), &one(c)), "printed residue");
        check!(prints(|| fi(c, &m).to_string(), &one(c)), "printed residue");
    }
    let a = trim(a);
    let parts = join(a.iter().map(one).collect(), "X", false);
    check!(prints(|| p.to_string(), &parts), "printed modular polynomial");
    check!(prints(|| KnownPrime::new_unsafe(m.clone()).to_string(), &[V(m.clone())]), "printed prime");
    check!(prints(|| KnownOdd::new_unsafe(m.clone()).to_string(), &[V(m.clone())]), "printed odd number");
}
fn nested_polynomials() {
    let inner = |n: &str| {
        let (a, p) = any_zp(n, choose(&format!("len_{}", n), 3));
        (int_parts(&a), p, a.is_empty())
    };
    let k = choose("k", 3);
    let mut terms = vec![];
    let mut ps: Vec<ZP> = vec![];
    let mut last_zero = false;
    for i in 0..k {
        let (t, p, z) = inner(["a", "b"][i]);
        terms.push(t);
        ps.push(p);
        last_zero = z;
    }
    assume(k == 0 || !last_zero);
    let p: Polynomial<ZP> = ps.into();
    let parts = join(terms, "Y", true);
    check!(prints(|| p.to_string(), &parts), "printed polynomial in two variables");
    assume(k > 0);
    // a third variable
    let q: Polynomial<Polynomial<ZP>> = vec![p.clone(), Zero::zero(), p].into();
    let text = || {
        let mut r = vec![];
        for p in &parts {
            r.push(match p {
                T(t) => T(t),
                S(s) => S(s.clone()),
                V(v) => V(v.clone()),
            });
        }
        r
    };
    let parts3 = join(vec![text(), vec![T("0")], text()], "Z", true);
    check!(prints(|| q.to_string(), &parts3), "printed polynomial in three variables");
}
fn names() {
    const LETTERS: &[u8] = b"XYZABCDEFGHIJKLMNOPQRSTUVW";
    let d = choose("depth", 800);
    let want: String = {
        let mut n = d;
        let mut s = vec![LETTERS[n % 26] as char];
        while n >= 26 {
            n /= 26;
            s.insert(0, LETTERS[n % 26] as char);
        }
        s.into_iter().collect()
    };
    check!(get_variable_name(d) == want.as_str(), "name of variable {}", d);
    check!(PolynomialIsZero.to_string() == "polynomial is zero", "printed error");
}
fn intervals() {
    let (lo, hi) = (any("lo"), any("hi"));
    assume(lo <= hi);
    let k = choose("k", 12);
    let x = DFI::new(lo.clone(), hi.clone(), k);
    let d = || S(format!(" / 2^{}", k));
    let parts = [T("["), V(lo.clone()), d(), T(", "), V(hi.clone()), d(), T("]")];
    check!(prints(|| x.to_string(), &parts), "printed interval");
    let parts = [
        T("DyadicFractionInterval { lower_bound_numer: "),
        V(lo.clone()),
        T(", upper_bound_numer: "),
        V(hi.clone()),
        S(format!(", log2_denom: {} }}", k)),
    ];
    check!(prints(|| format!("{:?}", x), &parts), "debug form of an interval");
    // sameness and hashes
    let (lo2, hi2) = (any("lo2"), any("hi2"));
    assume(lo2 <= hi2);
    let k2 = choose("k2", 12);
    let y = DFI::new(lo2.clone(), hi2.clone(), k2);
    let same = lo == lo2 && hi == hi2 && k == k2;
    check!(x.is_same(&y) == same, "is_same compares bounds and precision");
    if same {
        cover("same");
        check!(hashed(&x) == hashed(&y), "same intervals hash the same");
    }
}
fn numbers() {
    let (n, d, q) = any_ratio("q", 4);
    let x = R::from(q.clone());
    let (p, iv) = (x.minimal_polynomial().clone(), x.interval().clone());
    let parts = |name: &'static str| {
        vec![
            T(name),
            T(" { minimal_polynomial: "),
            V(p.coefficient(0)),
            T(" + "),
            V(p.coefficient(1)),
            T("*X, interval: DyadicFractionInterval { lower_bound_numer: "),
            V(iv.lower_bound_numer().clone()),
            T(", upper_bound_numer: "),
            V(iv.upper_bound_numer().clone()),
            S(format!(", log2_denom: {} }} }}", iv.log2_denom())),
        ]
    };
    check!(-p.coefficient(0) * d == n * p.coefficient(1), "minimal polynomial of a rational");
    check!(prints(|| format!("{:?}", x), &parts("RealAlgebraicNumber")), "debug form of a number");
    let data = x.clone().into_data();
    check!(prints(|| format!("{:?}", data), &parts("RealAlgebraicNumberData")), "debug form of number data");
    let (_, _, q2) = any_ratio("r", 2);
    let mut other = R::from(q2.clone()).into_data();
    check!((data == other) == (q == q2), "number data is equal exactly for the same polynomial and interval");
    if q == q2 {
        cover("same");
        check!(hashed(&data) == hashed(&other), "equal number data hashes the same");
    }
    other.interval = data.interval.clone();
    check!((data == other) == (q == q2), "number data with different polynomials differs");
    other = data.clone();
    other.interval = DFI::new(iv.lower_bound_numer() - bi(1), iv.upper_bound_numer().clone(), iv.log2_denom());
    check!(data != other, "number data with different intervals differs");
}
/// equal polynomials, however built, feed the same to a hasher
fn polynomial_hashes() {
    let n = choose("n", 3);
    let (a, d, p) = any_qp("a", n, 2);
    let c = bi(1 + choose("c", 3) as i64);
    let mut v = vscale(&a, &c);
    for _ in 0..choose("zeros", 2) {
        v.push(bi(0));
    }
    let q = QP::from((v, d * c));
    check!(p == q, "the same polynomial");
    check!(hashed(&p) == hashed(&q), "equal rational polynomials hash the same");
    let b = any_vec("b", n);
    let p = zp(&b);
    let mut b2 = b.clone();
    b2.push(bi(0));
    let q = zp(&b2);
    check!(p == q && hashed(&p) == hashed(&q), "equal integer polynomials hash the same");
    let m = bi(2 + choose("m", 3) as i64);
    let b3: Vec<BigInt> = b.iter().map(|c| c + &m).collect();
    let p = mp(&b.iter().map(|c| c.mod_floor(&m)).collect::<Vec<_>>(), &m);
    let q: MP = b3.iter().map(|c| MI::new(c.clone(), m.clone())).collect();
    check!(p == q && hashed(&p) == hashed(&q), "equal modular polynomials hash the same");
}
/// around the limits of every machine type
fn limits() -> Vec<BigInt> {
    let mut v = vec![];
    for k in [0usize, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128] {
        for o in -1..=1 {
            for s in [-1, 1] {
                v.push(bi(s) * (pow2(k) + bi(o)));
            }
        }
    }
    v
}
fn machine_numbers() {
    let l = limits();
    let v = l[choose("v", l.len())].clone();
    let high = choose("high", 3);
    let mut c = vec![v.clone()];
    if high > 0 {
        c.extend((1..high).map(|_| bi(0)));
        c.push(any("top"));
        assume(!c[high].is_zero());
    }
    let p = zp(&c);
    let len = trim(c.clone()).len();
    macro_rules! all {
        ($(($to:ident, $from:ident, $t:ident))+) => {$(
            let want: Option<$t> = if len > 1 { None } else { v.$to() };
            check!(p.$to() == want, concat!(stringify!($to), " of a polynomial"));
            if let (Some(x), 0) = (v.$to(), high) {
                check!(ZP::$from(x).map_or(false, |q| is_zp(&q, &trim(vec![v.clone()]))), concat!(stringify!($from), " gives the constant"));
                let q = Polynomial::<Ratio<BigInt>>::$from(x);
                check!(q.map_or(false, |q| is_qp(&q, &trim(vec![v.clone()]), &bi(1))), concat!(stringify!($from), " gives the constant"));
            }
        )+};
    }
    all!((to_i8, from_i8, i8)(to_u8, from_u8, u8)(to_i16, from_i16, i16)(to_u16, from_u16, u16)(to_i32, from_i32, i32)(to_u32, from_u32, u32));
    all!((to_i64, from_i64, i64)(to_u64, from_u64, u64)(to_i128, from_i128, i128)(to_u128, from_u128, u128)(to_isize, from_isize, isize)(to_usize, from_usize, usize));
    let want = if len > 1 { None } else { v.to_f64() };
    check!(p.to_f64() == want, "to_f64 of a polynomial");
    let want = if len > 1 { None } else { v.to_f32() };
    check!(p.to_f32() == want, "to_f32 of a polynomial");
    if high == 0 {
        let f = (choose("f", 9) as f64 - 4.0) / 2.0;
        let n = f.trunc() as i64;
        check!(ZP::from_f64(f).map_or(false, |q| is_zp(&q, &trim(vec![bi(n)]))), "from_f64 gives the truncated constant");
        check!(ZP::from_f32(f as f32).map_or(false, |q| is_zp(&q, &trim(vec![bi(n)]))), "from_f32 gives the truncated constant");
        check!(ZP::from_f64(f64::NAN).is_none() && ZP::from_f64(f64::INFINITY).is_none(), "no polynomial for NaN and infinity");
    }
    // zero, also as the empty polynomial
    let z = zp(&[]);
    check!(z.to_i8() == Some(0) && z.to_u64() == Some(0) && z.to_f64() == Some(0.0) && z.to_usize() == Some(0), "the zero polynomial is the number zero");
}

fn main() {
    main_(&[
        h("integer_polynomials", integer_polynomials),
        h("ratio_polynomials", ratio_polynomials),
        h("modular_polynomials", modular_polynomials),
        h("nested_polynomials", nested_polynomials),
        h("names", names),
        h("intervals", intervals).covers(&["same"]),
        h("numbers", numbers).covers(&["same"]),
        h("polynomial_hashes", polynomial_hashes),
        h("machine_numbers", machine_numbers),
    ])
}
