prop = "P09"
needs = "a primitive Sturm sequence with a degree gap and a divisor with a negative leading coefficient"
breaks = "the sequence has a member of the wrong sign, so sign changes miscount the real roots"
edits = [("src/polynomial.rs",
"                    if (factor < zero) != content_is_negative {\n",
"                    // the factor is a square: the degrees differ by one\n                    if content_is_negative {\n")]
demo = r'''
use algebraics::polynomial::Polynomial;
use num_bigint::BigInt;
use num_traits::{Signed, Zero};
fn p(c: &[i64]) -> Polynomial<BigInt> { c.iter().map(|v| BigInt::from(*v)).collect::<Vec<_>>().into() }
fn changes(s: &[Polynomial<BigInt>], at: i64) -> usize {
    let mut last = None;
    let mut n = 0;
    for q in s {
        let v = q.eval(&BigInt::from(at));
        if v.is_zero() { continue; }
        if last.map_or(false, |l| l != v.is_negative()) { n += 1; }
        last = Some(v.is_negative());
    }
    n
}
fn main() {
    // X^4 + X - 1 has two real roots
    let s = p(&[-1, 1, 0, 0, 1]).to_primitive_sturm_sequence();
    assert_eq!(changes(&s, -100) as i64 - changes(&s, 100) as i64, 2);
    // X^2 - 2 has two
    let s = p(&[-2, 0, 1]).to_primitive_sturm_sequence();
    assert_eq!(changes(&s, -100) as i64 - changes(&s, 100) as i64, 2);
}
'''
