//! Factorization over the integers.
//! encodes: Polynomial<BigInt>::{factor, factor_with_rng, factor_square_free_polynomial_with_rng}, square_free_factorization_using_yuns_algorithm, distinct_degree_factorization, same_degree_factorization, FactorTree (bezout coefficients, hensel_lift_step), for_subsets_of_size, next_prime_i32, modular arithmetic over KnownOddPrime<i32>, checked_exact_pseudo_div, primitive part
//! outside: integer polynomials other than: products of up to 5 (quick) / 6 (thorough) of 12 (four or more factors: the first 8, six: the first 6) irreducible factors times one of 5 constants; products of up to 3 of 10 other irreducible factors with large coefficients; x^n - 1 and x^n + 1 with n up to 12 (thorough: 20); 4 triples of factors with powers up to 4; degree up to 3 with coefficients in -3..3 (thorough: -5..5), degree 4 with coefficients in -2..2, degree 5 with coefficients in -1..1 (thorough: -2..2); c * (x - a)^k with a any integer, k up to 1 and c any integer or k = 2 and c in {1, -1, 6}; random draws: the first 3 are any of 6 strata, the rest a fixed sequence
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use rand::RngCore;
use verif_harness::spec::*;
use verif_harness::*;

/// the first draws are whatever the solver wants, the rest come from a fixed generator
struct Draws {
    left: Vec<u64>,
    state: u64,
}
impl Draws {
    fn new() -> Self {
        let mut left = vec![];
        for i in 0..3 {
            left.push(choose(&format!("draw{}", i), 6) as u64 * (u64::MAX / 6) + 12345);
        }
        Draws { left, state: 1 }
    }
}
impl RngCore for Draws {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        if !self.left.is_empty() {
            return self.left.remove(0);
        }
        self.state = self.state.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.state ^ (self.state >> 29)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

type Fs = Vec<(Vec<i64>, usize)>;
fn small(v: &[BigInt]) -> Vec<i64> {
    v.iter().map(|c| c.to_i64().unwrap()).collect()
}
/// constant and factors, sorted; the shape of the result is checked
fn result(p: &ZP, draws: bool) -> (BigInt, Vec<(Vec<BigInt>, usize)>) {
    let f = if draws { p.factor_with_rng(&mut Draws::new()) } else { p.factor() };
    let fs = f
        .polynomial_factors
        .into_iter()
        .map(|f| {
            let (e, _) = f.polynomial.clone().split_out_divisor();
            check!(is_zp(&f.polynomial, &e) && f.power > 0, "a factor is a normal polynomial with a positive power");
            (e, f.power)
        })
        .collect();
    (f.constant_factor, fs)
}
fn sorted(f: Vec<(Vec<BigInt>, usize)>) -> Fs {
    let mut f: Fs = f.iter().map(|(v, n)| (small(v), *n)).collect();
    f.sort();
    f
}

const IRREDUCIBLE: [&[i64]; 12] = [
    &[0, 1],
    &[-1, 1],
    &[1, 1],
    &[3, 2],
    &[-7, 5],
    &[1, 0, 1],
    &[-2, 0, 1],
    &[1, 1, 1],
    &[5, -4, 3],
    &[2, 0, 0, 1],
    &[1, 0, 0, 0, 1],
    &[1, 0, -10, 0, 1],
];
fn product(nf: usize, last: usize) -> (Vec<BigInt>, Fs) {
    let mut v = vec![bi(1)];
    let mut fs: Fs = vec![];
    let mut prev = 0;
    for i in 0..nf {
        let k = prev + choose(&format!("f{}", i), last - prev);
        if k == prev && i > 0 {
            fs.last_mut().unwrap().1 += 1;
        } else {
            fs.push((IRREDUCIBLE[k].to_vec(), 1));
        }
        prev = k;
        let q: Vec<BigInt> = IRREDUCIBLE[k].iter().map(|&x| bi(x)).collect();
        v = vmul(&v, &q);
    }
    fs.sort();
    (v, fs)
}
/// the product of known irreducible polynomials is taken apart again
fn by_construction() {
    let nf = 1 + choose("nf", if thorough() { 6 } else { 5 });
    let (v, fs) = product(nf, if nf >= 6 { 6 } else if nf >= 4 { 8 } else { 12 });
    let c = [1, -1, 6, 35, -12][choose("c", if nf <= 2 { 5 } else { 2 })];
    let (k, got) = result(&zp(&vscale(&v, &bi(c))), false);
    check!(k == bi(c), "constant factor is the content with the sign of the leading coefficient");
    check!(sorted(got) == fs, "exactly the irreducible factors");
    if fs.len() == 1 && fs[0].1 == 1 {
        cover("irreducible");
    }
    if fs.iter().any(|f| f.1 > 1) {
        cover("repeated");
    }
}
/// leading coefficients divisible by the first primes, roots that coincide modulo them, large coefficients
fn wide() {
    const F: [&[i64]; 10] = [
        &[-1, 1],
        &[-16, 1],
        &[-2, 105],
        &[1000003, 1],
        &[-99, 100],
        &[2, 0, 15],
        &[-211, 0, 1],
        &[1, 30, 1],
        &[15, 1, 0, 15],
        &[1, 1, 1, 1, 1],
    ];
    let n = 1 + choose("n", 3);
    let mut v = vec![bi(1)];
    let mut fs: Fs = vec![];
    let mut prev = 0;
    for i in 0..n {
        let k = prev + choose(&format!("f{}", i), 10 - prev);
        assume(i == 0 || k != prev);
        prev = k;
        v = vmul(&v, &F[k].iter().map(|&x| bi(x)).collect::<Vec<_>>());
        fs.push((F[k].to_vec(), 1));
    }
    fs.sort();
    let (k, got) = result(&zp(&v), false);
    check!(k.is_one() && sorted(got) == fs, "exactly the irreducible factors");
}
/// x^n - 1 and x^n + 1: many modular factors, few integer ones
fn cyclotomic() {
    let n = 1 + choose("n", if thorough() { 20 } else { 12 });
    let mut phi: Vec<Vec<i64>> = vec![vec![]];
    for k in 1..=2 * n {
        let mut p = vec![0i64; k + 1];
        p[0] = -1;
        p[k] = 1;
        for d in 1..k {
            if k % d == 0 {
                p = quotient(&p, &phi[d]);
            }
        }
        phi.push(p);
    }
    let plus = choose("plus", 2) == 1;
    let mut v = vec![bi(0); n + 1];
    v[0] = bi(if plus { 1 } else { -1 });
    v[n] = bi(1);
    let mut fs: Fs = (1..=2 * n).filter(|k| if plus { 2 * n % k == 0 && n % k != 0 } else { n % k == 0 }).map(|k| (phi[k].clone(), 1)).collect();
    fs.sort();
    let (c, got) = result(&zp(&v), false);
    check!(c.is_one() && sorted(got) == fs, "the cyclotomic factors");
    if fs.len() >= 6 {
        cover("six factors")
    }
}
/// exact quotient by a monic polynomial
fn quotient(a: &[i64], b: &[i64]) -> Vec<i64> {
    let mut r = a.to_vec();
    let mut q = vec![0; a.len() + 1 - b.len()];
    for i in (0..q.len()).rev() {
        q[i] = r[i + b.len() - 1];
        for j in 0..b.len() {
            r[i + j] -= q[i] * b[j];
        }
    }
    q
}
/// high and mixed powers
fn multiplicities() {
    let pick: [&[usize]; 4] = [&[0, 1, 3], &[2, 5, 4], &[6, 7, 0], &[1, 8, 5]];
    let s = pick[choose("s", 4)];
    let mut v = vec![bi([1, -2][choose("c", 2)])];
    let c = v[0].clone();
    let mut fs: Fs = vec![];
    for (i, &k) in s.iter().enumerate() {
        let e = choose(&format!("e{}", i), 5);
        let q: Vec<BigInt> = IRREDUCIBLE[k].iter().map(|&x| bi(x)).collect();
        for _ in 0..e {
            v = vmul(&v, &q);
        }
        if e > 0 {
            fs.push((IRREDUCIBLE[k].to_vec(), e));
        }
    }
    fs.sort();
    let (d, got) = result(&zp(&v), false);
    check!(d == c && sorted(got) == fs, "factors and their powers");
}
/// whatever the random numbers are, the factors are the same
fn any_draws() {
    let set: [&[usize]; 6] = [&[0, 1, 2], &[1, 2, 3, 5], &[5, 7], &[6, 8], &[1, 6, 10], &[11, 2]];
    let s = set[choose("s", 6)];
    let mut v = vec![bi(1)];
    let mut fs: Fs = vec![];
    for &k in s {
        let q: Vec<BigInt> = IRREDUCIBLE[k].iter().map(|&x| bi(x)).collect();
        v = vmul(&v, &q);
        fs.push((IRREDUCIBLE[k].to_vec(), 1));
    }
    fs.sort();
    let (k, got) = result(&zp(&v), true);
    check!(k.is_one() && sorted(got) == fs, "the factors do not depend on the random numbers");
}

fn divides(d: &[i64], v: &[i64]) -> bool {
    // exact division of integer polynomials, d not zero
    let mut r = v.to_vec();
    while r.len() >= d.len() {
        let l = *r.last().unwrap();
        if l % d[d.len() - 1] != 0 {
            return false;
        }
        let q = l / d[d.len() - 1];
        let s = r.len() - d.len();
        for i in 0..d.len() {
            r[s + i] -= q * d[i];
        }
        r.pop();
    }
    r.iter().all(|&c| c == 0)
}
fn divisors(n: i64) -> Vec<i64> {
    (1..=n.abs()).filter(|d| n % d == 0).collect()
}
/// a primitive polynomial of degree 1..=5 with positive leading coefficient has no factor of
/// degree 1 or 2 (a factor of degree 2 is found from its values at 0, 1 and -1)
fn irreducible(v: &[i64]) -> bool {
    let n = v.len() - 1;
    if n <= 1 {
        return true;
    }
    if v[0] == 0 {
        return false;
    }
    for a in divisors(v[n]) {
        for b in divisors(v[0]) {
            if divides(&[b, a], v) || divides(&[-b, a], v) {
                return false;
            }
        }
    }
    if n <= 3 {
        return true;
    }
    let at1: i64 = v.iter().sum();
    // no linear factor, so the value at 1 is not zero
    for a in divisors(v[n]) {
        for b in divisors(v[0]) {
            for s in divisors(at1) {
                for (sb, ss) in [(1, 1), (1, -1), (-1, 1), (-1, -1)] {
                    let d = [sb * b, ss * s - sb * b - a, a];
                    if divides(&d, v) {
                        return false;
                    }
                }
            }
        }
    }
    true
}
fn by_property(v: Vec<BigInt>) {
    let v = trim(v);
    let p = zp(&v);
    let (c, got) = result(&p, false);
    if v.is_empty() {
        check!(c.is_zero(), "zero has the constant factor zero");
        return;
    }
    let mut prod = vec![c.clone()];
    for (f, n) in &got {
        for _ in 0..*n {
            prod = vmul(&prod, f);
        }
    }
    check!(veq(&prod, &v), "constant times factors to their powers is the polynomial");
    check!(c.is_negative() == v.last().unwrap().is_negative(), "constant factor carries the sign");
    let got = sorted(got);
    for (i, (f, _)) in got.iter().enumerate() {
        check!(f.len() > 1, "no constant among the factors");
        check!(*f.last().unwrap() > 0 && f.iter().fold(0, |g, c| Integer::gcd(&g, c)) == 1, "factors are primitive");
        check!(irreducible(f), "factors are irreducible");
        check!(i == 0 || got[i - 1].0 != *f, "factors are distinct");
    }
    if got.len() == 1 && got[0].0.len() > 4 {
        cover("irreducible of degree 4 or more");
    }
}
fn small_degree() {
    let n = choose("n", 5);
    let b = if thorough() { 5 } else { 3 };
    by_property(chosen_vec("c", n, -b, b));
}
fn degree_4_5() {
    let n = 5 + choose("n", 2);
    let b = if thorough() || n == 5 { 2 } else { 1 };
    let v = chosen_vec("c", n, -b, b);
    assume(!v[n - 1].is_zero());
    by_property(v);
}

/// c * (x - a)^k for any integers a and c
fn any_root() {
    let k = choose("k", 3);
    let a = any("a");
    let c = if k < 2 { any("c") } else { bi([1, -1, 6][choose("c", 3)]) };
    assume(!c.is_zero());
    let mut v = vec![c.clone()];
    let l = vec![-&a, bi(1)];
    for _ in 0..k {
        v = vmul(&v, &l);
    }
    let (d, got) = result(&zp(&v), false);
    check!(d == c, "constant factor");
    check!(if k == 0 { got.is_empty() } else { got.len() == 1 && got[0].1 == k && veq(&got[0].0, &l) }, "x - a to the power k");
}

fn main() {
    main_(&[
        h("by_construction", by_construction).covers(&["irreducible", "repeated"]),
        h("wide", wide),
        h("any_draws", any_draws),
        h("cyclotomic", cyclotomic).covers(&["six factors"]),
        h("multiplicities", multiplicities),
        h("small_degree", small_degree),
        h("degree_4_5", degree_4_5).covers(&["irreducible of degree 4 or more"]),
        h("any_root", any_root),
    ]);
}
