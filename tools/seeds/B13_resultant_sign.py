prop = "P07"
needs = "two polynomials of odd degrees, the left one of lower degree"
breaks = "the resultant has the wrong sign when the operands are exchanged"
edits = [("src/polynomial/gcd.rs",
"                let retval = recursive_resultant(v, u, i, delta_p, psi_p)?;\n                if m.is_odd() && n.is_odd() {\n",
"                let retval = recursive_resultant(v, u, i, delta_p, psi_p)?;\n                if (m + n).is_odd() && m.is_odd() && n.is_odd() {\n")]
demo = r'''
use algebraics::polynomial::Polynomial;
use num_bigint::BigInt;
fn p(c: &[i64]) -> Polynomial<BigInt> { c.iter().map(|v| BigInt::from(*v)).collect::<Vec<_>>().into() }
fn main() {
    // resultant(X - 1, X^3 - 2) = -(resultant of the exchanged ones)
    let (a, b) = (p(&[-1, 1]), p(&[-2, 0, 0, 1]));
    assert_eq!(b.clone().resultant(a.clone()), BigInt::from(1));
    assert_eq!(a.resultant(b), BigInt::from(-1));
}
'''
