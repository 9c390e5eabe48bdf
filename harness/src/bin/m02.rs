//! Modular integers: inverses, division and powers.
//! encodes: ModularInteger::{checked_inverse, inverse}, Div, DivAssign, CheckedDiv, ExactDiv, ExactDivAssign in all reference forms, ModularReducePow for BigInt, BigUint and primitive types (square and multiply), ModularInteger as a polynomial coefficient: powers; ExtendedGCD for BigInt
//! outside: inverses of big integers: moduli above 30 (quick) / 60 (thorough) and other than 2^61 - 1 with values 1, 2, 3 and their negations; primitive types: moduli 1 to 12 and the largest prime of the type with listed values; exponents above 40 (primitive types also the largest values of the exponent type)
use algebraics::mod_int::*;
use algebraics::traits::{ExactDiv, ExactDivAssign};
use num_bigint::BigUint;
use num_traits::{CheckedDiv, One, Zero};
use std::convert::TryFrom;
use verif_harness::spec::*;
use verif_harness::*;

fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
fn max_m() -> usize {
    if thorough() {
        60
    } else {
        30
    }
}
/// any integer as operand, every modulus up to the bound
fn inverse() {
    let n = choose("m", max_m() - 1) as i64 + 2;
    let m = bi(n);
    let a = any("a");
    let x = MI::new(a, m.clone());
    let v = num_traits::ToPrimitive::to_i64(x.value()).unwrap();
    let unit = gcd(v, n) == 1;
    let r = x.checked_inverse();
    check!(r.is_some() == unit, "inverse exists exactly for units");
    match r {
        Some(r) => {
            check!(!num_traits::Signed::is_negative(r.value()) && r.value() < &m && r.modulus() == &m, "inverse is reduced");
            check!((r.value() * bi(v) % &m).is_one(), "product with the inverse is one");
            check!(x.inverse() == r, "inverse");
        }
        None => check!(panics(|| x.inverse()), "no inverse panics"),
    }
}
fn inverse_large() {
    let m = pow2(61) - bi(1);
    let v = [bi(1), bi(2), bi(3), &m - bi(1), &m - bi(2), &m - bi(3), pow2(60), bi(0), m.clone()][choose("v", 9)].clone();
    let x = MI::new(v.clone(), m.clone());
    let r = x.checked_inverse();
    check!(r.is_some() == !x.value().is_zero(), "inverse modulo a prime");
    if let Some(r) = r {
        check!((r.value() * &v % &m).is_one(), "product with the inverse is one");
    }
}
fn div() {
    let n = choose("m", 11) as i64 + 2;
    let m = bi(n);
    let b = bi(choose("b", 12) as i64);
    assume(b < m);
    let a = any("a");
    let (x, y) = (MI::new(a.clone(), m.clone()), MI::new(b.clone(), m.clone()));
    let unit = gcd(num_traits::ToPrimitive::to_i64(&b).unwrap(), n) == 1;
    let q = x.checked_div(&y);
    check!(q.is_some() == unit, "quotient exists exactly for units");
    check!((&x).checked_exact_div(&y) == q && x.clone().checked_exact_div(&y) == q, "checked_exact_div");
    check!((&x).checked_exact_div(y.clone()) == q && x.clone().checked_exact_div(y.clone()) == q, "checked_exact_div by value");
    let mut z = x.clone();
    check!(z.checked_exact_div_assign(&y).is_ok() == unit, "checked_exact_div_assign");
    let mut w = x.clone();
    check!(w.checked_exact_div_assign(y.clone()).is_ok() == unit, "checked_exact_div_assign by value");
    match q {
        None => {
            check!(z == x && w == x, "a refusal leaves the operand");
            check!(panics(|| &x / &y) && panics(|| x.clone() / y.clone()), "division by a non-unit panics");
        }
        Some(q) => {
            check!(&q * &y == x && q.modulus() == &m && q.value() < &m, "quotient times divisor");
            check!(z == q && w == q, "assigned quotient");
            check!(&x / &y == q && x.clone() / &y == q && &x / y.clone() == q && x.clone() / y.clone() == q, "division forms");
            let mut t = x.clone();
            t /= &y;
            let mut u = x.clone();
            u /= y.clone();
            let mut e = x.clone();
            e.exact_div_assign(&y);
            check!(t == q && u == q && e == q && (&x).exact_div(&y) == q, "assigning forms");
        }
    }
}
fn naive(b: &BigInt, e: usize, m: &BigInt) -> BigInt {
    let mut r = num_integer::Integer::mod_floor(&bi(1), m);
    for _ in 0..e {
        r = num_integer::Integer::mod_floor(&(r * b), m);
    }
    r
}
/// every residue, exponents up to 40, big integers and every primitive type
fn pow() {
    let n = choose("m", 12) as i64 + 1;
    let b = choose("b", 14) as i64 - 1;
    assume(b <= n + 1);
    let e = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 11, 16, 25, 32, 40][choose("e", 14)];
    let (m, base) = (bi(n), bi(b));
    let want = naive(&base, e, &m);
    check!(ModularReducePow::<BigInt>::pow_modular_reduce(&base, &bi(e as i64), &m) == want, "power");
    check!(ModularReducePow::<usize>::pow_modular_reduce(&base, &e, &m) == want, "power with a machine exponent");
    macro_rules! t {
        ($($t:ty),*) => {
            $(if b >= 0 || <$t>::MIN != 0 {
                let v = b as $t;
                let m = n as $t;
                let w = <$t>::try_from(want.clone()).unwrap();
                check!(ModularReducePow::<usize>::pow_modular_reduce(&v, &e, &m) == w, "primitive power, usize exponent");
                check!(ModularReducePow::<u8>::pow_modular_reduce(&v, &(e as u8), m) == w, "primitive power, u8 exponent");
                check!(ModularReducePow::<i32>::pow_modular_reduce(&v, &(e as i32), m) == w, "primitive power, i32 exponent");
                check!(ModularReducePow::<BigInt>::pow_modular_reduce(&v, &bi(e as i64), m) == w, "primitive power, big exponent");
            })*
        };
    }
    t!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize);
    if b >= 0 {
        let u = BigUint::from(b as u64);
        check!(BigInt::from(ModularReducePow::<usize>::pow_modular_reduce(&u, &e, &BigUint::from(n as u64))) == want, "unsigned power");
    }
    // as a polynomial coefficient (zero to the power zero is refused there)
    if n > 1 && !(e == 0 && b % n == 0) {
        let p = mp(&[base.clone()], &m);
        let r = num_traits::Pow::pow(p, e);
        check!(is_mp(&r, &[want], &m), "power of a constant polynomial");
    }
}
/// the largest moduli and exponents of each type
fn pow_large() {
    macro_rules! t {
        ($t:ty, $p:expr) => {{
            let m: $t = $p;
            let v: $t = [2, m - 1, m / 2, m - 2, 3][choose("v", 5)];
            let big = BigInt::from(v);
            let bm = BigInt::from(m);
            let e = [2usize, 3, 5, 13][choose("e", 4)];
            let r = ModularReducePow::<usize>::pow_modular_reduce(&v, &e, m);
            check!(BigInt::from(r) == naive(&big, e, &bm), "power");
            // Fermat: v^(m - 1) == 1 for a prime modulus
            let r = ModularReducePow::<$t>::pow_modular_reduce(&v, &(m - 1), m);
            check!(r == 1, "the power of a unit modulo a prime");
        }};
    }
    match choose("type", 12) {
        0 => t!(u8, 251),
        1 => t!(i8, 127),
        2 => t!(u16, 65521),
        3 => t!(i16, 32749),
        4 => t!(u32, 4294967291),
        5 => t!(i32, 2147483647),
        6 => t!(u64, 18446744073709551557),
        7 => t!(i64, 9223372036854775783),
        8 => t!(usize, 18446744073709551557),
        9 => t!(isize, 9223372036854775783),
        10 => t!(u128, 340282366920938463463374607431768211297),
        _ => t!(i128, 170141183460469231731687303715884105727),
    }
}
/// signed primitive inverses and quotients
fn primitive_inverse() {
    macro_rules! t {
        ($t:ty) => {{
            let mm = [2, 3, 4, 5, 6, 8, 9, 12, <$t>::MAX, <$t>::MAX - 1];
            let m: $t = mm[choose("m", 10)];
            let k = choose("v", 13);
            let v: $t = if k < 7 { (k as $t) % m } else { m - (k as $t - 6) % m };
            let v = v % m;
            let x = ModularInteger::<$t, $t>::new(v, m);
            let (mut a, mut b) = (v, m);
            while a != 0 {
                let r = b % a;
                b = a;
                a = r;
            }
            let r = x.checked_inverse();
            check!(r.is_some() == (b == 1), "inverse exists exactly for units");
            if let Some(r) = r {
                check!(*r.value() >= 0 && *r.value() < m, "inverse is reduced");
                check!((BigInt::from(*r.value()) * BigInt::from(v) % BigInt::from(m)).is_one(), "product with the inverse is one");
                check!(*(x / x).value() == 1, "quotient with itself is one");
            }
        }};
    }
    match choose("type", 6) {
        0 => t!(i8),
        1 => t!(i16),
        2 => t!(i32),
        3 => t!(i64),
        4 => t!(i128),
        _ => t!(isize),
    }
}

fn main() {
    main_(&[
        h("inverse", inverse),
        h("inverse_large", inverse_large),
        h("div", div),
        h("pow", pow),
        h("pow_large", pow_large),
        h("primitive_inverse", primitive_inverse),
    ]);
}
