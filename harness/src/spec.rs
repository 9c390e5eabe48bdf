//! helpers shared by the property harnesses
use crate::*;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};

pub fn pow2(n: usize) -> BigInt {
    BigInt::one() << n
}

/// r == floor(n / d) for a positive d, as inequalities
pub fn is_floor(r: &BigInt, n: &BigInt, d: &BigInt) -> bool {
    let rd = r * d;
    rd <= *n && *n < rd + d
}
/// r == ceil(n / d) for a positive d, as inequalities
pub fn is_ceil(r: &BigInt, n: &BigInt, d: &BigInt) -> bool {
    let rd = r * d;
    rd >= *n && *n > rd - d
}

/// a ratio with a symbolic numerator in no particular range and a denominator chosen
/// from 1..=max_den; reduced by construction of Ratio
pub fn any_ratio(name: &str, max_den: usize) -> (BigInt, BigInt, Ratio<BigInt>) {
    let n = any(&format!("{}_n", name));
    let d = BigInt::from(1 + choose(&format!("{}_d", name), max_den));
    let r = Ratio::new(n.clone(), d.clone());
    (n, d, r)
}

/// a precision: 0 to upto, or one of the listed ones around and above machine word sizes
pub fn precision(name: &str, upto: usize, more: &[usize]) -> usize {
    let k = choose(name, upto + 1 + more.len());
    if k <= upto {
        k
    } else {
        more[k - upto - 1]
    }
}

/// the ratio is canonical: positive denominator, lowest terms
pub fn canonical(r: &Ratio<BigInt>) -> bool {
    r.denom().is_positive() && r.numer().gcd(r.denom()).is_one()
}

pub fn is_zero<T: Zero>(v: &T) -> bool {
    v.is_zero()
}

// ---- polynomials ----
use algebraics::mod_int::ModularInteger;
use algebraics::polynomial::Polynomial;

pub type ZP = Polynomial<BigInt>;
pub type QP = Polynomial<Ratio<BigInt>>;
pub type MI = ModularInteger<BigInt, BigInt>;
pub type MP = Polynomial<MI>;

pub fn trim(mut v: Vec<BigInt>) -> Vec<BigInt> {
    while v.last().map_or(false, |c| c.is_zero()) {
        v.pop();
    }
    v
}
/// `n` integers, any values
pub fn any_vec(name: &str, n: usize) -> Vec<BigInt> {
    (0..n).map(|i| any(&format!("{}{}", name, i))).collect()
}
pub fn int_vec(name: &str, n: usize, lo: i64, hi: i64) -> Vec<BigInt> {
    (0..n).map(|i| int(&format!("{}{}", name, i), lo, hi)).collect()
}
/// `n` integers in lo..=hi, each decided by the solver before the code runs
pub fn chosen_vec(name: &str, n: usize, lo: i64, hi: i64) -> Vec<BigInt> {
    (0..n).map(|i| bi(lo + choose(&format!("{}{}", name, i), (hi - lo + 1) as usize) as i64)).collect()
}
/// a polynomial with integer coefficients: trimmed coefficient list and the real thing
pub fn any_zp(name: &str, n: usize) -> (Vec<BigInt>, ZP) {
    let v = any_vec(name, n);
    let p = ZP::from(v.clone());
    (trim(v), p)
}
pub fn zp(v: &[BigInt]) -> ZP {
    ZP::from(v.to_vec())
}
pub fn at(v: &[BigInt], i: usize) -> BigInt {
    v.get(i).cloned().unwrap_or_else(|| bi(0))
}
pub fn vadd(a: &[BigInt], b: &[BigInt]) -> Vec<BigInt> {
    (0..a.len().max(b.len())).map(|i| at(a, i) + at(b, i)).collect()
}
pub fn vsub(a: &[BigInt], b: &[BigInt]) -> Vec<BigInt> {
    (0..a.len().max(b.len())).map(|i| at(a, i) - at(b, i)).collect()
}
pub fn vscale(a: &[BigInt], c: &BigInt) -> Vec<BigInt> {
    a.iter().map(|x| x * c).collect()
}
pub fn vmul(a: &[BigInt], b: &[BigInt]) -> Vec<BigInt> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r: Vec<BigInt> = (0..a.len() + b.len() - 1).map(|_| bi(0)).collect();
    for i in 0..a.len() {
        for j in 0..b.len() {
            r[i + j] = &r[i + j] + &a[i] * &b[j];
        }
    }
    r
}
pub fn veval(a: &[BigInt], x: &BigInt) -> BigInt {
    let mut r = bi(0);
    for c in a.iter().rev() {
        r = r * x + c;
    }
    r
}
pub fn vderiv(a: &[BigInt]) -> Vec<BigInt> {
    a.iter().enumerate().skip(1).map(|(i, c)| c * bi(i as i64)).collect()
}
pub fn veq(a: &[BigInt], b: &[BigInt]) -> bool {
    (0..a.len().max(b.len())).all(|i| at(a, i) == at(b, i))
}
/// integer polynomial in normal form with exactly these coefficients (b need not be trimmed)
pub fn is_zp(p: &ZP, b: &[BigInt]) -> bool {
    let (e, _) = p.clone().split_out_divisor();
    e.len() <= b.len()
        && (0..b.len()).all(|i| at(&e, i) == b[i])
        && e.last().map_or(true, |c| !c.is_zero())
}
/// rational polynomial in normal form whose i-th coefficient is n[i]/d, d > 0
pub fn is_qp(p: &QP, n: &[BigInt], d: &BigInt) -> bool {
    let (e, div) = p.clone().split_out_divisor();
    e.len() <= n.len()
        && (0..n.len()).all(|i| at(&e, i) * d == &n[i] * &div)
        && qp_normal(p)
}
/// no trailing zeros, divisor positive and coprime to the elements
pub fn qp_normal(p: &QP) -> bool {
    let (e, div) = p.clone().split_out_divisor();
    if !e.last().map_or(true, |c| !c.is_zero()) || !div.is_positive() {
        return false;
    }
    let mut g = div;
    for x in &e {
        g = Integer::gcd(&g, x);
    }
    g.is_one()
}
/// `n` rational coefficients: numerators any, denominators chosen from 1..=max_den;
/// returned as numerators over the common denominator
pub fn any_qp(name: &str, n: usize, max_den: usize) -> (Vec<BigInt>, BigInt, QP) {
    let mut nums = vec![];
    let mut dens = vec![];
    let mut cs = vec![];
    for i in 0..n {
        let (a, d, r) = any_ratio(&format!("{}{}", name, i), max_den);
        nums.push(a);
        dens.push(d);
        cs.push(r);
    }
    let mut l = bi(1);
    for d in &dens {
        l = Integer::lcm(&l, d);
    }
    let v: Vec<BigInt> = nums.iter().zip(&dens).map(|(a, d)| a * (&l / d)).collect();
    (v, l, QP::from(cs))
}
pub fn mi(v: &BigInt, m: &BigInt) -> MI {
    MI::new(v.clone(), m.clone())
}
pub fn mp(v: &[BigInt], m: &BigInt) -> MP {
    v.iter().map(|c| mi(c, m)).collect::<Vec<_>>().into()
}
/// residues 0..m symbolic, modulus concrete
pub fn any_res(name: &str, n: usize, m: i64) -> Vec<BigInt> {
    int_vec(name, n, 0, m - 1)
}
/// modular polynomial in normal form whose coefficients are b mod m
pub fn is_mp(p: &MP, b: &[BigInt], m: &BigInt) -> bool {
    let cs: Vec<MI> = p.iter().collect();
    cs.len() <= b.len()
        && (0..b.len()).all(|i| match cs.get(i) {
            Some(c) => {
                c.modulus() == m
                    && !c.value().is_negative()
                    && c.value() < m
                    && (&b[i] - c.value()).mod_floor(m).is_zero()
            }
            None => b[i].mod_floor(m).is_zero(),
        })
        && cs.last().map_or(true, |c| !c.value().is_zero())
}

// polynomials over a prime field
pub type FI = ModularInteger<BigInt, algebraics::mod_int::KnownPrime<BigInt>>;
pub type FP = Polynomial<FI>;
pub fn fi(v: &BigInt, m: &BigInt) -> FI {
    FI::new(v.clone(), algebraics::mod_int::KnownPrime::new_unsafe(m.clone()))
}
pub fn fp(v: &[BigInt], m: &BigInt) -> FP {
    v.iter().map(|c| fi(c, m)).collect::<Vec<_>>().into()
}
pub fn fvals(p: &FP) -> Vec<BigInt> {
    p.iter().map(|c| c.value().clone()).collect()
}
/// polynomial over GF(m) in normal form whose coefficients are b mod m
pub fn is_fp(p: &FP, b: &[BigInt], m: &BigInt) -> bool {
    let cs: Vec<FI> = p.iter().collect();
    cs.len() <= b.len()
        && (0..b.len()).all(|i| match cs.get(i) {
            Some(c) => {
                **c.modulus() == *m
                    && !c.value().is_negative()
                    && c.value() < m
                    && (&b[i] - c.value()).mod_floor(m).is_zero()
            }
            None => b[i].mod_floor(m).is_zero(),
        })
        && cs.last().map_or(true, |c| !c.value().is_zero())
}

// ---- text and hashes ----
/// a piece of expected text
pub enum Part {
    T(&'static str),
    S(String),
    V(BigInt),
}
/// the text printed by `f` is exactly these parts
pub fn prints(f: impl FnOnce() -> String, parts: &[Part]) -> bool {
    let (text, vals) = printed_impl(f);
    let mut want = String::new();
    let mut want_vals = vec![];
    for p in parts {
        match p {
            Part::T(t) => want.push_str(t),
            Part::S(t) => want.push_str(t),
            Part::V(v) => {
                want.push_str(&shown(v));
                if SYMBOLIC {
                    want_vals.push(v.clone());
                }
            }
        }
    }
    text == want && vals == want_vals
}
/// everything a value feeds to a hasher
pub fn hashed<T: std::hash::Hash + ?Sized>(v: &T) -> (Vec<u8>, Vec<BigInt>) {
    struct Record(Vec<u8>);
    impl std::hash::Hasher for Record {
        fn finish(&self) -> u64 {
            0
        }
        fn write(&mut self, b: &[u8]) {
            self.0.extend_from_slice(b)
        }
    }
    let mut r = Record(vec![]);
    let vals = hashed_impl(|| v.hash(&mut r));
    (r.0, vals)
}
