//! Cached constants do not depend on what was asked before or meanwhile.
//! cfg: algebraics_verif
//! encodes: ConstantCache::{new, get, read_cache, fill_cache, write_cache, log2_denom_to_cache_index, get_required_log2_denom_for_cache_index}, DyadicFractionInterval::{sqrt_2, natural_log_of_2, to_converted_log2_denom, into_converted_log2_denom}
//! outside: histories of more than four requests; precisions other than the listed ones up to 700, in histories of two requests those not divisible by 3 or above 1000 (thorough: above 2400); a caller interrupted anywhere but while it computes the constant (the lock is released there and no shared state is touched between the other steps); interruptions nested deeper than two; memory ordering inside std's RwLock
use algebraics::interval_arithmetic::{verif::Cache, DyadicFractionInterval as D};
use std::cell::{Cell, RefCell};
use verif_harness::spec::*;
use verif_harness::*;

const LD: [usize; 12] = [40, 0, 70, 33, 200, 7, 32, 101, 50, 64, 400, 700];

fn precision(name: &str, n: usize) -> usize {
    LD[choose(name, n)]
}

/// lo <= n / 2^k <= hi, exactly when the precision reaches k and one unit wide otherwise
fn right(r: &D, n: &BigInt, k: usize, ld: usize) -> bool {
    let (lo, hi) = (r.lower_bound_numer(), r.upper_bound_numer());
    r.log2_denom() == ld
        && if ld >= k {
            let v = n << (ld - k);
            *lo == v && *hi == v
        } else {
            (lo << (k - ld)) <= *n && *n <= (hi << (k - ld)) && hi - lo <= bi(1)
        }
}

/// any constant with k binary places; the computation is exact or one unit wide, and may return
/// more places than asked for
struct Constant {
    n: BigInt,
    k: usize,
    extra: usize,
}
impl Constant {
    fn any() -> Constant {
        Constant { n: any("n"), k: [90, 45, 3][choose("k", 3)], extra: [0, 9][choose("extra", 2)] }
    }
    fn compute(&self, ld: usize) -> D {
        D::from_dyadic_fraction(self.n.clone(), self.k).into_converted_log2_denom(ld + self.extra)
    }
}

fn histories() {
    let c = Constant::any();
    let cache = Cache::new();
    let m = if thorough() { 7 } else { 5 };
    for i in 0..if thorough() { 4 } else { 3 } {
        let ld = precision(&format!("ld{}", i), m);
        let r = cache.get(ld, &|l| {
            check!(l >= ld, "the constant is computed to at least the precision asked for");
            c.compute(l)
        });
        check!(right(&r, &c.n, c.k, ld), "cached constant");
    }
}

/// a request of any precision after one of a listed precision
fn after_another() {
    let c = Constant { n: any("n"), k: if thorough() { 2500 } else { 1030 }, extra: 0 };
    let cache = Cache::new();
    let first = [700, 1000, 130, 40, 2000][choose("first", if thorough() { 5 } else { 2 })];
    check!(right(&cache.get(first, &|l| c.compute(l)), &c.n, c.k, first), "cached constant");
    let ld = if thorough() { choose("ld", 2400) } else { 3 * choose("ld", 336) };
    let r = cache.get(ld, &|l| c.compute(l));
    check!(right(&r, &c.n, c.k, ld), "constant at any precision after another");
}

/// other callers run while one computes the constant
struct Callers<'a> {
    c: &'a Constant,
    cache: &'a Cache,
    /// what the others ask for, one after another, each while the one before is computing
    pending: RefCell<Vec<usize>>,
    finished: Cell<usize>,
}
impl Callers<'_> {
    fn request(&self, ld: usize) {
        let r = self.cache.get(ld, &|l| {
            let early = self.c.compute(l);
            let other = self.pending.borrow_mut().pop();
            if let Some(other) = other {
                cover("interleaved");
                self.request(other);
            }
            early
        });
        check!(right(&r, &self.c.n, self.c.k, ld), "cached constant, other callers running meanwhile");
        self.finished.set(self.finished.get() + 1);
    }
}
fn interleavings() {
    let c = Constant { n: any("n"), k: 90, extra: [0, 9][choose("extra", 2)] };
    let cache = Cache::new();
    let m = if thorough() { 8 } else { 5 };
    let warm = choose("warm", m + 1);
    if warm > 0 {
        let ld = LD[warm - 1];
        check!(right(&cache.get(ld, &|l| c.compute(l)), &c.n, c.k, ld), "cached constant");
    }
    let others: Vec<usize> = (0..2).map(|i| precision(&format!("other{}", i), m)).collect();
    let callers = Callers { c: &c, cache: &cache, pending: RefCell::new(others), finished: Cell::new(0) };
    callers.request(precision("first", m));
    check!(callers.finished.get() >= 1, "every caller gets its answer");
    callers.pending.borrow_mut().clear();
    // afterwards
    callers.request(precision("last", m));
}

fn sqrt_2_history() {
    let m = if thorough() { 12 } else { 11 };
    for i in 0..3 {
        let ld = precision(&format!("ld{}", i), m);
        let r = D::sqrt_2(ld);
        let (l, u) = (r.lower_bound_numer(), r.upper_bound_numer());
        let two = pow2(2 * ld + 1);
        check!(r.log2_denom() == ld && l * l <= two && two <= u * u, "sqrt_2 encloses the root of two");
        check!(u - l <= bi(1) && *u >= bi(0) && *l >= bi(0), "sqrt_2 is one unit wide");
    }
}
/// bounds on ln 2 * 2^w
fn ln2_bounds(w: usize) -> (BigInt, BigInt) {
    // sum of 1 / (i 2^i), rounded down, then up; the tail is below 2^-w
    let (mut lo, mut hi) = (bi(0), bi(1));
    for i in 1..=w {
        let t = pow2(w - i) / (i as u64);
        hi += &t + 1;
        lo += t;
    }
    (lo, hi)
}
fn natural_log_of_2_history() {
    let m = if thorough() { 12 } else { 11 };
    for i in 0..3 {
        let ld = precision(&format!("ld{}", i), m);
        let r = D::natural_log_of_2(ld);
        let (l, u) = (r.lower_bound_numer(), r.upper_bound_numer());
        let (tl, th) = ln2_bounds(ld + 40);
        check!(r.log2_denom() == ld && (l << 40usize) <= th && tl <= (u << 40usize), "natural_log_of_2 encloses the logarithm");
        check!(u - l <= bi(2), "natural_log_of_2 is narrow");
    }
}

fn main() {
    main_(&[
        h("histories", histories),
        h("after_another", after_another),
        h("interleavings", interleavings).covers(&["interleaved"]),
        h("sqrt_2_history", sqrt_2_history).fuel(100_000_000),
        h("natural_log_of_2_history", natural_log_of_2_history).fuel(100_000_000),
    ])
}
