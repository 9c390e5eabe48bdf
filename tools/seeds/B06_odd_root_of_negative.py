prop = "R05"
needs = "a negative base other than -1 with an exponent whose denominator is odd and not 1"
breaks = "a power with no definite real value is not refused, although the same exponent is refused for -1"
edits = [("src/algebraic_numbers.rs",
"            let result_sign = if base_is_negative {\n                if exponent.is_integer() {\n",
"            let result_sign = if base_is_negative {\n                if exponent.denom().is_odd() {\n")]
demo = r'''
use algebraics::RealAlgebraicNumber as R;
fn main() {
    assert!(R::from(-1).checked_pow((1, 3)).is_none());
    assert!(R::from(-2).checked_pow((1, 2)).is_none());
    assert!(R::from(-2).checked_pow((1, 3)).is_none());
    assert!(R::from(-2).checked_pow(3).is_some());
}
'''
