prop = "R02"
needs = "the consuming truncation of a negative integer"
breaks = "into_integer_trunc and into_trunc of a negative integer are one too large"
edits = [("src/algebraic_numbers.rs",
"            Ordering::Less => self.into_integer_ceil(),\n",
"            Ordering::Less => self.into_integer_floor() + 1i32,\n")]
demo = r'''
use algebraics::RealAlgebraicNumber as R;
use num_bigint::BigInt;
use num_traits::Pow;
fn main() {
    let v = -R::from(2).pow((1, 2));
    assert_eq!(v.clone().into_integer_trunc(), BigInt::from(-1));
    assert_eq!(R::from(-3).to_integer_trunc(), BigInt::from(-3));
    assert_eq!(R::from(-3).into_integer_trunc(), BigInt::from(-3));
}
'''
