prop = "R04"
needs = "a remainder whose quotient is negative and not an integer"
breaks = "x % y rounds the quotient down instead of towards zero, so the remainder takes the sign of y"
edits = [("src/algebraic_numbers.rs",
"        *self -= (&*self / rhs).trunc() * rhs;\n",
"        *self -= (&*self / rhs).floor() * rhs;\n")]
demo = r'''
use algebraics::prelude::*;
fn main() {
    let n = |v: i32| RealAlgebraicNumber::from(v);
    let half = n(1) / n(2);
    assert_eq!((n(-7) * &half) % n(1), -half.clone());
    assert_eq!((n(7) * &half) % n(-1), half.clone());
    let r2 = n(2).pow((1, 2));
    assert_eq!(-&r2 % n(1), n(1) - &r2);
}
'''
