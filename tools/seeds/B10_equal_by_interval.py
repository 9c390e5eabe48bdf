prop = "R06"
needs = "two conjugate numbers whose isolating intervals overlap"
breaks = "conjugates with overlapping intervals compare equal"
edits = [("src/algebraic_numbers.rs",
"    fn eq(&self, rhs: &RealAlgebraicNumber) -> bool {\n        (self - rhs).is_zero()\n",
"    fn eq(&self, rhs: &RealAlgebraicNumber) -> bool {\n        if self.minimal_polynomial() != rhs.minimal_polynomial() {\n            return false;\n        }\n        // a root of the same polynomial in the same place\n        self.interval().lower_bound() <= rhs.interval().upper_bound()\n            && rhs.interval().lower_bound() <= self.interval().upper_bound()\n")]
demo = r'''
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use algebraics::polynomial::Polynomial;
use algebraics::RealAlgebraicNumber as R;
use num_bigint::BigInt;
fn main() {
    let p: Polynomial<BigInt> = vec![BigInt::from(-2), BigInt::from(0), BigInt::from(1)].into();
    let n = |a: i32, b: i32| R::new_unchecked(p.clone(), D::new(a.into(), b.into(), 0));
    assert!(n(1, 2) == n(0, 3));
    assert!(n(-2, -1) != n(1, 2));
    assert!(n(-2, 1) != n(-1, 2));
}
'''
