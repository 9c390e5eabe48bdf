//! Modular integers: reduction, addition, subtraction, negation, multiplication.
//! encodes: ModularInteger::{new, from_*, value, modulus, neg_assign, has_matching_moduli}, From/Into tuples, ModularReduce for BigInt and BigUint (modular_reduce*, modular_add*, modular_sub*, modular_neg*, modular_mul*), ModularReduce::modular_reduce_from_bigint for primitive types, Add, Sub, Mul, Neg and their assigning, borrowing and checked forms; static moduli Mod1 to Mod16, KnownPrime, KnownOdd
//! outside: moduli other than 1 to 12 and 2^64 + 13 (values: any); symbolic moduli for sums, differences, negations only; conversion from big integers to primitive types: moduli 1 to 16 and 2^31 - 1
use algebraics::mod_int::*;
use num_bigint::BigUint;
use num_traits::{CheckedAdd, CheckedMul, CheckedSub, Signed, Zero};
use std::convert::TryFrom;
use verif_harness::spec::*;
use verif_harness::*;

fn moduli() -> BigInt {
    let i = choose("m", 13);
    if i == 12 {
        pow2(64) + bi(13)
    } else {
        bi(i as i64 + 1)
    }
}
/// v == r (mod m) and 0 <= r < m
fn is_res(r: &BigInt, v: &BigInt, m: &BigInt) -> bool {
    !r.is_negative() && r < m && ((v - r) % m).is_zero()
}
fn big(m: &BigInt) -> BigUint {
    BigUint::try_from(m.clone()).unwrap()
}
fn reduce() {
    let m = moduli();
    let a = any("a");
    let x = MI::new(a.clone(), m.clone());
    check!(is_res(x.value(), &a, &m), "new reduces");
    check!(x.modulus() == &m, "modulus");
    let (v, n): (BigInt, BigInt) = x.clone().into();
    check!(&v == x.value() && n == m, "into tuple");
    check!(MI::from((a.clone(), m.clone())) == x, "from tuple");
    check!(MI::from_bigint(&a, m.clone()) == x, "from_bigint");
    check!(&a.clone().modular_reduce(&m) == x.value(), "modular_reduce");
    let mut b = a.clone();
    b.modular_reduce_assign(&m);
    check!(&b == x.value(), "modular_reduce_assign");
    let u = any_uint("u");
    let y = MI::from_biguint(&u, m.clone());
    check!(is_res(y.value(), &BigInt::from(u.clone()), &m), "from_biguint");
    let z = ModularInteger::<BigUint, BigUint>::new(u.clone(), big(&m));
    check!(&BigInt::from(z.value().clone()) == y.value(), "unsigned reduces");
    let w = ModularInteger::<BigUint, BigUint>::from_bigint(&a, big(&m));
    check!(&BigInt::from(w.value().clone()) == x.value(), "unsigned from a signed value");
    check!((MI::new(a.clone(), m.clone()) == MI::new(&a + &m, m.clone())), "equal residues are equal");
}
fn from_primitive() {
    let m = moduli();
    macro_rules! t {
        ($t:ty, $f:ident) => {{
            let v: $t = [<$t>::MIN, <$t>::MAX, <$t>::MAX / 3, 0, 5, <$t>::MIN / 2][choose(stringify!($t), 6)];
            check!(is_res(MI::$f(v, m.clone()).value(), &BigInt::from(v), &m), "from primitive");
            let r = ModularInteger::<BigUint, BigUint>::$f(v, big(&m));
            check!(is_res(&BigInt::from(r.value().clone()), &BigInt::from(v), &m), "unsigned from primitive");
            if m < bi(100) {
                let n = num_traits::ToPrimitive::to_i64(&m).unwrap();
                let r = ModularInteger::<i8, i8>::$f(v, n as i8);
                check!(is_res(&bi(*r.value()), &BigInt::from(v), &m), "i8 from primitive");
                let r = ModularInteger::<u32, u32>::$f(v, n as u32);
                check!(is_res(&bi(*r.value()), &BigInt::from(v), &m), "u32 from primitive");
            }
        }};
    }
    match choose("type", 12) {
        0 => t!(u8, from_u8),
        1 => t!(u16, from_u16),
        2 => t!(u32, from_u32),
        3 => t!(u64, from_u64),
        4 => t!(u128, from_u128),
        5 => t!(usize, from_usize),
        6 => t!(i8, from_i8),
        7 => t!(i16, from_i16),
        8 => t!(i32, from_i32),
        9 => t!(i64, from_i64),
        10 => t!(i128, from_i128),
        _ => t!(isize, from_isize),
    }
}
/// primitive residues of any big integer
fn to_primitive() {
    let n: i64 = choose("n", 17) as i64 + 1;
    let n = if n == 17 { 2147483647 } else { n };
    let a = any("a");
    macro_rules! t {
        ($t:ty) => {{
            if let Ok(m) = <$t>::try_from(n) {
                let r = ModularInteger::<$t, $t>::from_bigint(&a, m);
                check!(is_res(&BigInt::from(*r.value()), &a, &bi(n)), "primitive residue of a big integer");
            }
        }};
    }
    if n > 100 {
        assume(&a % bi(n) == bi(n - 2) || &a % bi(n) == bi(-1));
    }
    match choose("type", 12) {
        0 => t!(u8),
        1 => t!(u16),
        2 => t!(u32),
        3 => t!(u64),
        4 => t!(u128),
        5 => t!(usize),
        6 => t!(i8),
        7 => t!(i16),
        8 => t!(i32),
        9 => t!(i64),
        10 => t!(i128),
        _ => t!(isize),
    }
}
macro_rules! forms {
    ($op:tt, $asg:tt, $a:expr, $b:expr) => {{
        let mut s = $a.clone();
        s $asg $b.clone();
        let mut t = $a.clone();
        t $asg &$b;
        [$a.clone() $op $b.clone(), $a.clone() $op &$b, &$a $op $b.clone(), &$a $op &$b, s, t]
    }};
}
fn add_sub() {
    let m = moduli();
    let (a, b) = (any("a"), any("b"));
    let (x, y) = (MI::new(a.clone(), m.clone()), MI::new(b.clone(), m.clone()));
    for r in forms!(+, +=, x, y) {
        check!(is_res(r.value(), &(&a + &b), &m) && r.modulus() == &m, "sum");
    }
    check!(x.checked_add(&y) == Some(&x + &y), "checked_add");
    for r in forms!(-, -=, x, y) {
        check!(is_res(r.value(), &(&a - &b), &m) && r.modulus() == &m, "difference");
    }
    check!(x.checked_sub(&y) == Some(&x - &y), "checked_sub");
    let n = -&x;
    check!(is_res(n.value(), &-&a, &m), "negation");
    check!(-x.clone() == n, "negation by value");
    let mut o = x.clone();
    o.neg_assign();
    check!(o == n, "neg_assign");
}
fn add_sub_unsigned() {
    type UI = ModularInteger<BigUint, BigUint>;
    let m = moduli();
    let (a, b) = (any_uint("a"), any_uint("b"));
    let (x, y) = (UI::new(a.clone(), big(&m)), UI::new(b.clone(), big(&m)));
    let (a, b) = (BigInt::from(a), BigInt::from(b));
    for r in forms!(+, +=, x, y) {
        check!(is_res(&BigInt::from(r.value().clone()), &(&a + &b), &m), "sum");
    }
    for r in forms!(-, -=, x, y) {
        check!(is_res(&BigInt::from(r.value().clone()), &(&a - &b), &m), "difference");
    }
    check!(is_res(&BigInt::from((-&x).value().clone()), &-&a, &m), "negation");
    check!(-x.clone() == -&x, "negation by value");
}
/// any modulus: reduced operands
fn any_modulus() {
    let m = at_least("m", 1);
    let (a, b) = (at_least("a", 0), at_least("b", 0));
    assume(a < m && b < m);
    let (x, y) = (MI::new(a.clone(), m.clone()), MI::new(b.clone(), m.clone()));
    check!(x.value() == &a && y.value() == &b, "reduced values stay");
    let s = &a + &b;
    check!((&x + &y).value() == &(if s >= m { &s - &m } else { s }), "sum");
    let d = &a - &b;
    check!((&x - &y).value() == &(if d.is_negative() { &d + &m } else { d }), "difference");
    check!((-&x).value() == &(if a.is_zero() { bi(0) } else { &m - &a }), "negation");
}
fn mul() {
    let m = moduli();
    let a = any("a");
    let (x, b) = (MI::new(a.clone(), m.clone()), any("b"));
    let y = MI::new(b.clone(), m.clone());
    // the residues of the operands decide the residue of the product
    let want = x.value() * y.value();
    for r in forms!(*, *=, x, y) {
        check!(is_res(r.value(), &want, &m) && r.modulus() == &m, "product");
    }
    check!(x.checked_mul(&y) == Some(&x * &y), "checked_mul");
    type UI = ModularInteger<BigUint, BigUint>;
    let (u, v) = (UI::from_bigint(&a, big(&m)), UI::from_bigint(&b, big(&m)));
    for r in forms!(*, *=, u, v) {
        check!(is_res(&BigInt::from(r.value().clone()), &want, &m), "unsigned product");
    }
}
/// every primitive type at the ends of its range
fn primitive() {
    macro_rules! t {
        ($t:ty) => {{
            let x = <$t>::MAX;
            let half = (1 as $t) << (std::mem::size_of::<$t>() * 4 - 1);
            let m = [x, x - 1, x / 2 + 1, half + 1, 2 * half - 1, 1, 2, 3, 7][choose("m", 9)];
            let w = [0, 1, 2, half, x / 2, x, x - 1, x - 2, m - 1, m, m / 2];
            let (a, b) = (w[choose("a", 11)], w[choose("b", 11)]);
            let big = |v: $t| BigInt::from(v);
            let (p, q) = (ModularInteger::<$t, $t>::new(a, m), ModularInteger::<$t, $t>::new(b, m));
            check!(is_res(&big(*p.value()), &big(a), &big(m)), "reduced");
            for r in forms!(+, +=, p, q) {
                check!(is_res(&big(*r.value()), &(big(a) + big(b)), &big(m)), "sum");
            }
            for r in forms!(-, -=, p, q) {
                check!(is_res(&big(*r.value()), &(big(a) - big(b)), &big(m)), "difference");
            }
            for r in forms!(*, *=, p, q) {
                check!(is_res(&big(*r.value()), &(big(a) * big(b)), &big(m)), "product");
            }
            check!(is_res(&big(*(-&p).value()), &-big(a), &big(m)), "negation");
            check!(<$t>::try_from(big(a)).ok() == Some(a), "round trip");
            let n = (0 as $t).wrapping_sub(a);
            check!(is_res(&big(*ModularInteger::<$t, $t>::new(n, m).value()), &big(n), &big(m)), "negative values reduce");
        }};
    }
    match choose("type", 12) {
        0 => t!(u8),
        1 => t!(u16),
        2 => t!(u32),
        3 => t!(u64),
        4 => t!(u128),
        5 => t!(usize),
        6 => t!(i8),
        7 => t!(i16),
        8 => t!(i32),
        9 => t!(i64),
        10 => t!(i128),
        _ => t!(isize),
    }
}
fn mismatch() {
    let (m, n) = (at_least("m", 1), at_least("n", 1));
    let x = MI::new(bi(3), m.clone());
    let y = MI::new(bi(5), n.clone());
    let same = m == n;
    check!(x.has_matching_moduli(&y) == same, "has_matching_moduli");
    check!(x.checked_add(&y).is_some() == same, "checked_add");
    check!(x.checked_sub(&y).is_some() == same, "checked_sub");
    check!(x.checked_mul(&y).is_some() == same, "checked_mul");
    if !same {
        check!(panics(|| &x + &y), "mixed sum panics");
        check!(panics(|| &x - &y), "mixed difference panics");
        check!(panics(|| &x * &y), "mixed product panics");
        check!(panics(|| x.clone() + y.clone()) && panics(|| x.clone() - y.clone()) && panics(|| x.clone() * y.clone()), "mixed values panic");
        check!(panics(|| x.clone() + &y) && panics(|| x.clone() - &y) && panics(|| x.clone() * &y), "mixed values and references panic");
        check!(panics(|| &x + y.clone()) && panics(|| &x - y.clone()) && panics(|| &x * y.clone()), "mixed references and values panic");
        check!(panics(|| {
            let mut z = x.clone();
            z += &y;
        }) && panics(|| {
            let mut z = x.clone();
            z -= &y;
        }) && panics(|| {
            let mut z = x.clone();
            z *= &y;
        }), "mixed assignment panics");
        check!(panics(|| {
            let mut z = x.clone();
            z += y.clone();
        }) && panics(|| {
            let mut z = x.clone();
            z -= y.clone();
        }) && panics(|| {
            let mut z = x.clone();
            z *= y.clone();
        }), "mixed assignment by value panics");
    }
}
fn static_moduli() {
    let a = any("a");
    macro_rules! s {
        ($($m:ident = $n:expr),*) => {{
            let k = choose("k", 16) + 1;
            $(if k == $n {
                let m = bi($n as i64);
                let x = ModularInteger::<BigInt, $m>::new(a.clone(), $m);
                check!(is_res(x.value(), &a, &m), "static modulus reduces");
                check!(Modulus::<BigInt>::to_modulus(&$m).into_owned() == m && Modulus::<BigInt>::into_modulus($m) == m, "static modulus value");
                check!(<$m as StaticModulus<BigInt>>::get_modulus() == m && <$m as StaticModulus<u8>>::get_modulus() == $n && <$m as StaticModulus<i64>>::get_modulus() == $n, "get_modulus");
                let y = -&x;
                check!(is_res(y.value(), &-&a, &m) && (&x + &y).value().is_zero(), "static modulus negation");
                check!(format!("{}", $m) == format!("{}", $n), "static modulus display");
            })*
        }};
    }
    s!(Mod1 = 1, Mod2 = 2, Mod3 = 3, Mod4 = 4, Mod5 = 5, Mod6 = 6, Mod7 = 7, Mod8 = 8, Mod9 = 9, Mod10 = 10, Mod11 = 11, Mod12 = 12, Mod13 = 13, Mod14 = 14, Mod15 = 15, Mod16 = 16);
}
fn prime_power<T: num_integer::Integer + Clone, M: PrimePowerModulus<T>>(m: M) -> bool {
    let b = m.base_and_exponent();
    let mut v = T::one();
    for _ in 0..b.exponent {
        v = v * b.base.clone();
    }
    // the base is prime: no smaller divisor
    let mut d = T::one() + T::one();
    while d < b.base {
        if (b.base.clone() % d.clone()).is_zero() {
            return false;
        }
        d = d + T::one();
    }
    b.exponent >= 1 && b.base > T::one() && v == *m.to_modulus()
}
fn prime_powers() {
    macro_rules! s {
        ($($m:ident),*) => {
            $(
                check!(prime_power::<BigInt, $m>($m) && prime_power::<u8, $m>($m) && prime_power::<i64, $m>($m), "base and exponent");
            )*
        };
    }
    s!(Mod2, Mod3, Mod4, Mod5, Mod7, Mod8, Mod9, Mod11, Mod13, Mod16);
    let p = any("p");
    assume(p >= bi(2));
    let k = KnownPrime::new_unsafe(p.clone());
    let b = PrimePowerModulus::<BigInt>::base_and_exponent(&k);
    check!(b.base == p && b.exponent == 1, "known prime");
    check!(*k == p && k.to_modulus().into_owned() == p && k.clone().into_modulus() == p && k.unwrap() == p, "known prime value");
    let o = KnownOdd::new_unsafe(p.clone());
    check!(*o == p && o.to_modulus().into_owned() == p && o.clone().into_modulus() == p && o.unwrap() == p, "known odd value");
    let q = KnownOddPrime::new_odd_prime_unsafe(p.clone());
    let b = PrimePowerModulus::<BigInt>::base_and_exponent(&q);
    check!(b.base == p && b.exponent == 1, "known odd prime");
    check!(q.to_modulus().into_owned() == p, "known odd prime value");
}

fn main() {
    main_(&[
        h("reduce", reduce),
        h("from_primitive", from_primitive),
        h("to_primitive", to_primitive),
        h("add_sub", add_sub),
        h("add_sub_unsigned", add_sub_unsigned),
        h("any_modulus", any_modulus),
        h("mul", mul),
        h("primitive", primitive),
        h("mismatch", mismatch),
        h("static_moduli", static_moduli),
        h("prime_powers", prime_powers),
    ]);
}
