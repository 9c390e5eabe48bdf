//! Prime numbers and signs.
//! encodes: util::{is_prime_u32, prev_prime_u32, prev_prime_i32, next_prime_u32, next_prime_i32} with the table of 16-bit primes, util::Sign
//! outside: primality of values above 65536 other than the squares of 16-bit primes, products of neighbouring ones, listed large primes and composites, and the neighbourhoods walked by the previous/next functions at listed points; sign of an integer: any
use algebraics::util::*;
use verif_harness::spec::*;
use verif_harness::*;

fn prime(v: u64) -> bool {
    if v < 4 {
        return v >= 2;
    }
    if v % 2 == 0 {
        return false;
    }
    let mut d = 3;
    while d * d <= v {
        if v % d == 0 {
            return false;
        }
        d += 2;
    }
    true
}
/// values below 2^16 + 2^10, in slices
fn small() {
    let s = choose("slice", 65) as u32;
    for v in s * 1024..(s + 1) * 1024 {
        check!(is_prime_u32(v) == prime(v as u64), "is_prime of a small value");
    }
}
/// squares of primes and products of neighbouring primes: every entry of the table matters
fn squares() {
    let s = choose("slice", 64) as u64;
    for p in s * 1024..(s + 1) * 1024 {
        if prime(p) {
            check!(!is_prime_u32((p * p) as u32), "square of a prime");
            let mut q = p + 1;
            while !prime(q) {
                q += 1;
            }
            if p * q <= u32::MAX as u64 {
                check!(!is_prime_u32((p * q) as u32), "product of two primes");
            }
        }
    }
}
const LARGE: [u32; 16] = [
    65536, 65537, 65539, 1 << 20, 1_000_003, 16_777_213, 1 << 31, 2_147_483_629, 2_147_483_647, 2_147_483_659, 4_294_836_225, 4_294_049_777, 4_294_967_279,
    4_294_967_291, 4_294_967_295, 3_215_031_751,
];
fn large() {
    let v = LARGE[choose("v", 16)];
    for w in v.saturating_sub(40)..=v.saturating_add(40) {
        check!(is_prime_u32(w) == prime(w as u64), "is_prime of a large value");
    }
}
fn around(v: u32) {
    // the next prime is a prime above v with none between, and none exists only beyond the largest
    let r = next_prime_u32(v);
    let mut w = v as u64 + 1;
    while !prime(w) {
        w += 1;
    }
    check!(r.map(u64::from) == if w <= u32::MAX as u64 { Some(w) } else { None }, "next_prime_u32");
    let mut w = v as u64;
    let want = loop {
        if w <= 2 {
            break None;
        }
        w -= 1;
        if prime(w) {
            break Some(w);
        }
    };
    check!(prev_prime_u32(v).map(u64::from) == want, "prev_prime_u32");
    if v <= i32::MAX as u32 {
        check!(prev_prime_i32(v as i32) == want.map(|v| v as i32), "prev_prime_i32");
        let n = next_prime_u32(v).filter(|v| *v <= i32::MAX as u32);
        check!(next_prime_i32(v as i32) == n.map(|v| v as i32), "next_prime_i32");
    }
}
fn neighbours() {
    let i = choose("v", 20);
    if i < 16 {
        let v = LARGE[i];
        for w in v.saturating_sub(20)..=v.saturating_add(20) {
            around(w);
        }
    } else {
        for v in (i as u32 - 16) * 256..(i as u32 - 15) * 256 {
            around(v);
        }
    }
}
fn negative() {
    let v = [-1, -2, -3, i32::MIN, i32::MIN + 1, -2_147_483_629][choose("v", 6)];
    check!(prev_prime_i32(v).is_none(), "no prime below a negative value");
    check!(next_prime_i32(v) == Some(2), "first prime above a negative value");
}
fn signs() {
    let v = any("v");
    let s = Sign::new(&v);
    check!(s == if v > bi(0) { Some(Sign::Positive) } else if v < bi(0) { Some(Sign::Negative) } else { None }, "sign of an integer");
    let r = Ratio::new(v.clone(), bi(3));
    check!(Sign::new(&r) == s, "sign of a ratio");
    check!(Sign::new(&-&v) == s.map(|s| -s), "sign of the negation");
    check!(Sign::new(&f64::NAN).is_none() && Sign::new(&-0.0f64).is_none() && Sign::new(&-1e-300f64) == Some(Sign::Negative), "sign of a float");
    let all = [Sign::Negative, Sign::Positive];
    let (a, b) = (all[choose("a", 2)], all[choose("b", 2)]);
    let (x, y) = (a == Sign::Negative, b == Sign::Negative);
    check!(bool::from(a) == x && Sign::from(x) == a, "bool is true for negative");
    check!(bool::from(-a) == !x && -&a == -a && !a == -a && !&a == -a, "negation");
    check!(Sign::default() == Sign::Positive, "default");
    macro_rules! op {
        ($op:tt, $asg:tt) => {{
            let want = Sign::from(x $op y);
            let (mut c, mut d) = (a, a);
            c $asg b;
            d $asg &b;
            check!(a $op b == want && &a $op b == want && a $op &b == want && &a $op &b == want && c == want && d == want, "sign operators");
        }};
    }
    op!(&, &=);
    op!(|, |=);
    op!(^, ^=);
    check!(a.cmp(&b) == y.cmp(&x) && a.partial_cmp(&b) == Some(a.cmp(&b)), "negative is below positive");
}

fn main() {
    main_(&[
        h("small", small),
        h("squares", squares),
        h("large", large),
        h("neighbours", neighbours),
        h("negative", negative),
        h("signs", signs),
    ]);
}
