//! an independent account of real algebraic numbers for the R properties:
//! isolating intervals, root counting and enclosures by plain integer arithmetic
use algebraics::interval_arithmetic::DyadicFractionInterval;
use algebraics::RealAlgebraicNumber;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use verif_harness::spec::*;
use verif_harness::*;

pub type R = RealAlgebraicNumber;
pub type Q = Ratio<BigInt>;

pub fn ints(v: &[i64]) -> Vec<BigInt> {
    v.iter().map(|&x| bi(x)).collect()
}
/// sign of v at n / 2^k (-1, 0, 1)
pub fn sign_at(v: &[BigInt], n: &BigInt, k: usize) -> i32 {
    let mut r = bi(0);
    let mut s = bi(1);
    for c in v.iter().rev() {
        r = r * n + c * &s;
        s = s << k;
    }
    if r.is_zero() {
        0
    } else if r.is_positive() {
        1
    } else {
        -1
    }
}
/// negated pseudo-remainder with the sign of the true remainder, content removed
fn neg_rem(a: &[BigInt], b: &[BigInt]) -> Vec<BigInt> {
    let mut r = a.to_vec();
    let l = b.last().unwrap();
    let sq = l * l;
    while r.len() >= b.len() {
        let q = r.last().unwrap() * l;
        let s = r.len() - b.len();
        for c in r.iter_mut() {
            *c = &*c * &sq;
        }
        for i in 0..b.len() {
            r[s + i] = &r[s + i] - &q * &b[i];
        }
        r.pop();
        r = trim(r);
        if r.is_empty() {
            break;
        }
    }
    let mut g = bi(0);
    for c in &r {
        g = Integer::gcd(&g, c);
    }
    r.iter().map(|c| -(c / &g)).collect()
}
/// the number of distinct real roots of v in the closed interval [lo, hi] / 2^k
pub fn roots_in(v: &[BigInt], lo: &BigInt, hi: &BigInt, k: usize) -> usize {
    let mut seq = vec![v.to_vec(), trim(vderiv(v))];
    loop {
        let n = seq.len();
        if seq[n - 1].is_empty() {
            seq.pop();
            break;
        }
        let r = neg_rem(&seq[n - 2], &seq[n - 1]);
        if r.is_empty() {
            break;
        }
        seq.push(r);
    }
    let var = |x: &BigInt| {
        let mut last = 0;
        let mut n = 0;
        for p in &seq {
            let s = sign_at(p, x, k);
            if s != 0 {
                if last != 0 && s != last {
                    n += 1;
                }
                last = s;
            }
        }
        n
    };
    var(lo) - var(hi) + (sign_at(v, lo, k) == 0) as usize
}

/// all real roots in increasing order
pub fn real_roots(v: &[BigInt]) -> Vec<E> {
    let l = v.last().unwrap().abs();
    let m = v.iter().map(|c| c.abs()).max().unwrap();
    let b: BigInt = (m / l + bi(2)) << BITS;
    let mut out = vec![];
    fn go(v: &[BigInt], lo: BigInt, hi: BigInt, out: &mut Vec<E>) {
        let n = roots_in(v, &lo, &hi, BITS);
        if n == 0 {
            return;
        }
        if n == 1 {
            out.push(enclose(v, &lo, &hi, BITS));
            return;
        }
        assert!(&hi - &lo > bi(1), "roots too close for the precision");
        let mid: BigInt = (&lo + &hi) >> 1;
        go(v, lo, mid.clone(), out);
        go(v, mid, hi, out);
    }
    go(v, -&b, b, &mut out);
    out
}

/// an enclosure [lo, hi] / 2^BITS
#[derive(Clone, Debug)]
pub struct E {
    pub lo: BigInt,
    pub hi: BigInt,
}
pub const BITS: usize = 64;

/// the only root of v in [lo, hi] / 2^k, to BITS bits
pub fn enclose(v: &[BigInt], lo: &BigInt, hi: &BigInt, k: usize) -> E {
    assert!(k <= BITS);
    let mut lo = lo << (BITS - k);
    let mut hi = hi << (BITS - k);
    let sl = sign_at(v, &lo, BITS);
    if sl == 0 {
        return E { lo: lo.clone(), hi: lo };
    }
    if sign_at(v, &hi, BITS) == 0 {
        return E { lo: hi.clone(), hi };
    }
    while &hi - &lo > bi(1) {
        let mid: BigInt = (&lo + &hi) >> 1;
        let s = sign_at(v, &mid, BITS);
        if s == 0 {
            return E { lo: mid.clone(), hi: mid };
        }
        if s == sl {
            lo = mid
        } else {
            hi = mid
        }
    }
    E { lo, hi }
}
impl E {
    pub fn of_ratio(n: &BigInt, d: &BigInt) -> E {
        let a = n << BITS;
        E { lo: Integer::div_floor(&a, d), hi: -Integer::div_floor(&-a, d) }
    }
    pub fn neg(&self) -> E {
        E { lo: -&self.hi, hi: -&self.lo }
    }
    pub fn add(&self, r: &E) -> E {
        E { lo: &self.lo + &r.lo, hi: &self.hi + &r.hi }
    }
    pub fn sub(&self, r: &E) -> E {
        self.add(&r.neg())
    }
    pub fn mul(&self, r: &E) -> E {
        let mut c = vec![&self.lo * &r.lo, &self.lo * &r.hi, &self.hi * &r.lo, &self.hi * &r.hi];
        c.sort();
        E { lo: &c[0] >> BITS, hi: -(-&c[3] >> BITS) }
    }
    /// not containing zero
    pub fn recip(&self) -> E {
        let one = pow2(2 * BITS);
        E { lo: Integer::div_floor(&one, &self.hi), hi: -Integer::div_floor(&-one, &self.lo) }
    }
    pub fn overlaps(&self, r: &E) -> bool {
        self.lo <= r.hi && r.lo <= self.hi
    }
    /// -1, 0, 1; zero only for the exact zero
    pub fn sign(&self) -> i32 {
        if self.lo.is_positive() {
            1
        } else if self.hi.is_negative() {
            -1
        } else {
            assert!(self.lo.is_zero() && self.hi.is_zero(), "enclosure too wide");
            0
        }
    }
    pub fn floor(&self) -> BigInt {
        let a: BigInt = &self.lo >> BITS;
        assert!(a == (&self.hi >> BITS), "enclosure too wide");
        a
    }
    pub fn ceil(&self) -> BigInt {
        -self.neg().floor()
    }
}

/// a number of the test domain
#[derive(Clone)]
pub struct N {
    pub poly: &'static [i64],
    pub lo: i64,
    pub hi: i64,
    pub k: usize,
}
pub const fn n(poly: &'static [i64], lo: i64, hi: i64, k: usize) -> N {
    N { poly, lo, hi, k }
}
/// rational and irrational numbers of degree up to 4: conjugates of one another, tiny and large ones, wide and narrow intervals
pub const NUMS: [N; 26] = [
    n(&[0, 1], 0, 0, 0),
    n(&[-1, 1], 1, 1, 0),
    n(&[1, 1], -1, -1, 0),
    n(&[-3, 2], 1, 2, 0),
    n(&[2, 3], -1, 0, 0),
    n(&[-2, 0, 1], 1, 2, 0),
    n(&[-2, 0, 1], -2, -1, 0),
    n(&[-2, 0, 1], 0, 2, 0),
    n(&[-8, 0, 1], 11, 12, 2),
    n(&[-1, -1, 1], 1, 2, 0),
    n(&[-1, -1, 1], -1, 0, 0),
    n(&[11, -15, 5], 0, 13, 3),
    n(&[11, -15, 5], 13, 100, 3),
    n(&[-3, 0, 1], 1, 3, 0),
    n(&[-1, 0, 1000], 0, 1, 0),
    n(&[-1000003, 0, 1], 0, 1024, 0),
    n(&[-1, 0, 2], -1, 0, 0),
    n(&[-2, 0, 0, 1], 1, 2, 0),
    n(&[2, 0, 0, 1], -2, 0, 0),
    n(&[-1, -2, 1, 1], 1, 2, 0),
    n(&[-1, -2, 1, 1], -1, 0, 0),
    n(&[-1, -2, 1, 1], -2, -1, 0),
    n(&[1, 0, -10, 0, 1], 3, 4, 0),
    n(&[1, 0, -10, 0, 1], 0, 1, 0),
    n(&[1, 0, -10, 0, 1], -1, 0, 0),
    n(&[-6, -2, 0, 0, 3], 1, 2, 0),
];
impl N {
    pub fn deg(&self) -> usize {
        self.poly.len() - 1
    }
    pub fn real(&self) -> R {
        R::new_unchecked(
            ZP::from(ints(self.poly)),
            DyadicFractionInterval::new(bi(self.lo), bi(self.hi), self.k),
        )
    }
    pub fn e(&self) -> E {
        let v = ints(self.poly);
        assert!(roots_in(&v, &bi(self.lo), &bi(self.hi), self.k) == 1, "bad test number");
        enclose(&v, &bi(self.lo), &bi(self.hi), self.k)
    }
}

fn divides(d: &[BigInt], v: &[BigInt]) -> bool {
    let mut r = v.to_vec();
    while r.len() >= d.len() {
        let l = r.last().unwrap().clone();
        if !(&l % &d[d.len() - 1]).is_zero() {
            return false;
        }
        let q = l / &d[d.len() - 1];
        let s = r.len() - d.len();
        for i in 0..d.len() {
            r[s + i] = &r[s + i] - &q * &d[i];
        }
        r.pop();
    }
    r.iter().all(|c| c.is_zero())
}

/// r is a well-formed real algebraic number whose value lies in the enclosure:
/// primitive polynomial with positive leading coefficient of degree at most `deg`,
/// without a proper factor whose root the value is, and an interval with exactly one root
pub fn is_value(r: &R, e: &E, deg: usize) -> bool {
    let (v, _) = r.minimal_polynomial().clone().split_out_divisor();
    let iv = r.interval();
    let (lo, hi, k) = (iv.lower_bound_numer(), iv.upper_bound_numer(), iv.log2_denom());
    let mut g = bi(0);
    for c in &v {
        g = Integer::gcd(&g, c);
    }
    let normal = is_zp(r.minimal_polynomial(), &v) && v.len() > 1 && v.len() <= deg + 1 && g.is_one() && v.last().unwrap().is_positive();
    if !normal || lo > hi {
        return false;
    }
    if v.len() == 2 {
        // the rational number itself lies in the interval
        let inside = &v[1] * lo <= -(&v[0] << k) && -(&v[0] << k) <= &v[1] * hi;
        return inside && E::of_ratio(&-&v[0], &v[1]).overlaps(e);
    }
    if v[0].is_zero() {
        return false;
    }
    let all = real_roots(&v);
    let at: Vec<usize> = (0..all.len()).filter(|&i| all[i].overlaps(e)).collect();
    if at.len() != 1 {
        return false;
    }
    let f = &all[at[0]];
    // the value is in the interval, its neighbours are not
    let (l, h) = (lo << BITS, hi << BITS);
    let s = |x: &BigInt| x << k;
    let below = at[0] == 0 || s(&all[at[0] - 1].hi) < l;
    let above = at[0] + 1 == all.len() || h < s(&all[at[0] + 1].lo);
    if !(l <= s(&f.lo) && s(&f.hi) <= h && below && above) {
        return false;
    }
    // irrational: no rational number with a denominator dividing the leading coefficient and
    // the right numerator is a root (the only candidate within the enclosure)
    let l = v.last().unwrap();
    let cand: BigInt = (&f.lo * l + (pow2(BITS) - bi(1))) >> BITS;
    let s: BigInt = sign_num(&v, &cand, l);
    if s.is_zero() {
        return false;
    }
    // no quadratic factor of a quartic: the value would have degree 2
    if v.len() == 5 {
        return !has_quadratic_factor(&v);
    }
    true
}
fn sign_num(v: &[BigInt], n: &BigInt, d: &BigInt) -> BigInt {
    let mut r = bi(0);
    let mut s = bi(1);
    for c in v.iter().rev() {
        r = r * n + c * &s;
        s = s * d;
    }
    r
}
/// only for small coefficients
fn has_quadratic_factor(v: &[BigInt]) -> bool {
    use num_traits::ToPrimitive;
    let ds = |n: &BigInt| -> Option<Vec<i64>> {
        let n = n.abs().to_i64()?;
        if n > 4000 {
            return None;
        }
        Some((1..=n).filter(|d| n % d == 0).collect())
    };
    let at1 = v.iter().fold(bi(0), |a, b| a + b);
    if at1.is_zero() {
        return true;
    }
    let (a, b, c) = match (ds(v.last().unwrap()), ds(&v[0]), ds(&at1)) {
        (Some(a), Some(b), Some(c)) => (a, b, c),
        _ => return false,
    };
    for &a in &a {
        for &b in &b {
            for &s in &c {
                for (sb, ss) in [(1, 1), (1, -1), (-1, 1), (-1, -1)] {
                    if divides(&ints(&[sb * b, ss * s - sb * b - a, a]), v) {
                        return true;
                    }
                }
            }
        }
    }
    false
}

impl N {
    /// the number with any isolating interval: the precision is chosen, both bounds are
    /// symbolic, each up to `spread` units away from the tightest ones
    pub fn any_interval(&self, name: &str, max_k: usize, spread: i64) -> R {
        self.interval(name, max_k, spread, true)
    }
    /// the same with the bounds decided before the code runs
    pub fn each_interval(&self, name: &str, max_k: usize, spread: i64) -> R {
        self.interval(name, max_k, spread, false)
    }
    fn interval(&self, name: &str, max_k: usize, spread: i64, symbolic: bool) -> R {
        let v = ints(self.poly);
        let e = self.e();
        let k = choose(&format!("{}_k", name), max_k + 1);
        let lo: BigInt = &e.lo >> (BITS - k);
        let hi: BigInt = -(-&e.hi >> (BITS - k));
        let ok = |l: &BigInt, h: &BigInt| roots_in(&v, l, h, k) == 1;
        let mut lmin = lo.clone();
        while &lo - &lmin < bi(spread) && ok(&(&lmin - bi(1)), &hi) {
            lmin = lmin - bi(1);
        }
        let mut hmax = hi.clone();
        while &hmax - &hi < bi(spread) && ok(&lmin, &(&hmax + bi(1))) {
            hmax = hmax + bi(1);
        }
        if !ok(&lo, &hi) {
            // no isolating interval at this precision
            assume(false);
        }
        use num_traits::ToPrimitive;
        let pick = |name: String, max: BigInt| {
            if symbolic {
                int(&name, 0, max.to_i64().unwrap())
            } else {
                bi(choose(&name, max.to_usize().unwrap() + 1) as i64)
            }
        };
        let l = pick(format!("{}_below", name), &lo - &lmin);
        let h = pick(format!("{}_above", name), &hmax - &hi);
        R::new_unchecked(ZP::from(v), DyadicFractionInterval::new(lo - l, hi + h, k))
    }
}

/// any irrational number of degree 2 or 3 whose minimal polynomial has a leading coefficient up to
/// `lead` and other coefficients in -range..range, with an isolating interval of least precision
pub fn any_number(name: &str, deg: usize, lead: i64, range: i64) -> N {
    use num_traits::ToPrimitive;
    let small = |v: BigInt| v.to_i64().unwrap();
    let mut p: Vec<i64> = (0..deg).map(|i| small(int(&format!("{}_c{}", name, i), -range, range))).collect();
    p.push(small(int(&format!("{}_c{}", name, deg), 1, lead)));
    let mut g = 0i64;
    for &c in &p {
        g = num_integer::gcd(g, c);
    }
    assume(g == 1 && p[0] != 0);
    let v = ints(&p);
    for d in 1..=p[deg] {
        for n in -range..=range {
            // a rational root has a numerator dividing c0 and a denominator dividing the leading coefficient
            assume(n == 0 || !sign_num(&v, &bi(n), &bi(d)).is_zero());
        }
    }
    let which = choose(&format!("{}_root", name), deg);
    let all = real_roots(&v);
    assume(which < all.len());
    let mut k = 0;
    loop {
        let lo: BigInt = &all[which].lo >> (BITS - k);
        let hi = &lo + bi(1);
        if roots_in(&v, &lo, &hi, k) == 1 {
            return N { poly: Box::leak(p.into_boxed_slice()), lo: small(lo), hi: small(hi), k };
        }
        k += 1;
    }
}

/// a number to combine with: a rational, a square root of any kind, a conjugate, a cubic
const WITH: [usize; 8] = [3, 5, 10, 4, 11, 17, 16, 13];
pub fn small_pair() -> (N, N, R, R) {
    let a = match choose("deg", 2) {
        0 => any_number("a", 2, if thorough() { 4 } else { 3 }, if thorough() { 6 } else { 3 }),
        _ => any_number("a", 3, if thorough() { 2 } else { 1 }, if thorough() { 3 } else { 2 }),
    };
    let b = match choose("b", 3) {
        0 => NUMS[WITH[choose("with", if a.deg() == 2 || thorough() { 8 } else { 3 })]].clone(),
        // itself and its conjugates
        1 => {
            let mut b = a.clone();
            let all = real_roots(&ints(a.poly));
            let i = choose("conjugate", all.len());
            let mut k = 0;
            loop {
                let lo: BigInt = &all[i].lo >> (BITS - k);
                if roots_in(&ints(a.poly), &lo, &(&lo + bi(1)), k) == 1 {
                    use num_traits::ToPrimitive;
                    b.lo = lo.to_i64().unwrap();
                    b.hi = b.lo + 1;
                    b.k = k;
                    break b;
                }
                k += 1;
            }
        }
        _ => {
            assume(a.deg() == 2);
            if thorough() {
                any_number("b", 2, 2, 2)
            } else {
                any_number("b", 2, 1, 2)
            }
        }
    };
    let (x, y) = (a.real(), b.real());
    (a, b, x, y)
}
