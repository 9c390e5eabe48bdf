prop = "D01"
needs = "converting a polynomial of degree one to a machine number"
breaks = "a non-constant polynomial converts to its constant term instead of to nothing"
edits = [("src/polynomial.rs",
"            if self.len() > 1 {\n                None\n            } else if let Some(coefficient) = self.nonzero_coefficient(0) {\n",
"            if self.degree() > Some(1) {\n                None\n            } else if let Some(coefficient) = self.nonzero_coefficient(0) {\n")]
demo = r'''
use algebraics::polynomial::Polynomial;
use num_bigint::BigInt;
use num_traits::ToPrimitive;
fn p(c: &[i64]) -> Polynomial<BigInt> { c.iter().map(|v| BigInt::from(*v)).collect::<Vec<_>>().into() }
fn main() {
    assert_eq!(p(&[]).to_i32(), Some(0));
    assert_eq!(p(&[5]).to_i32(), Some(5));
    assert_eq!(p(&[5, 0, 1]).to_i32(), None);
    assert_eq!(p(&[5, 2]).to_i32(), None);
}
'''
