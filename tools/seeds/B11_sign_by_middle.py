prop = "R02"
needs = "an irrational number whose isolating interval contains zero and has its middle on the other side of zero"
breaks = "the sign of the number is taken from the middle of its interval"
edits = [("src/algebraic_numbers.rs",
"            if lower_bound_sign_changes.sign_change_count == zero_sign_changes.sign_change_count {\n                Ordering::Greater\n            } else {\n                assert_eq!(\n                    upper_bound_sign_changes.sign_change_count,\n                    zero_sign_changes.sign_change_count\n                );\n                Ordering::Less\n            }\n",
"            if lower_bound_sign_changes.sign_change_count == zero_sign_changes.sign_change_count {\n                Ordering::Greater\n            } else if upper_bound_sign_changes.sign_change_count\n                == zero_sign_changes.sign_change_count\n                && self.interval().upper_bound() < -self.interval().lower_bound()\n            {\n                Ordering::Less\n            } else {\n                Ordering::Greater\n            }\n")]
demo = r'''
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use algebraics::polynomial::Polynomial;
use algebraics::RealAlgebraicNumber as R;
use num_bigint::BigInt;
use std::cmp::Ordering;
fn main() {
    // X^3 - 2 and X^3 + 2 have one real root each
    let p = |c: i32| -> Polynomial<BigInt> { vec![c.into(), BigInt::from(0), BigInt::from(0), BigInt::from(1)].into() };
    let n = |c: i32, a: i32, b: i32| R::new_unchecked(p(c), D::new(a.into(), b.into(), 0));
    assert_eq!(n(-2, -9, 2).cmp_with_zero(), Ordering::Greater);
    assert_eq!(n(2, -2, 1).cmp_with_zero(), Ordering::Less);
    assert_eq!(n(2, -2, 9).cmp_with_zero(), Ordering::Less);
}
'''
