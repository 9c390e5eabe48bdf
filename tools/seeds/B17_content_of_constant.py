prop = "P08"
needs = "a polynomial that is a negative constant"
breaks = "its content is positive, so the primitive part has a negative leading coefficient"
edits = [("src/polynomial.rs",
"            if (c < zero) != (retval < zero) {\n                retval = zero - retval;\n            }\n            Some(retval)\n        } else {\n            None\n        }\n    }\n    /// returns greatest common divisor of all coefficients\n    pub fn content(",
"            // the gcd is never negative\n            if c < zero {\n                retval = zero - retval;\n            }\n            Some(retval)\n        } else {\n            None\n        }\n    }\n    /// returns greatest common divisor of all coefficients\n    pub fn content(")]
demo = r'''
use algebraics::polynomial::Polynomial;
use num_bigint::BigInt;
fn p(c: &[i64]) -> Polynomial<BigInt> { c.iter().map(|v| BigInt::from(*v)).collect::<Vec<_>>().into() }
fn main() {
    assert_eq!(p(&[6, -4]).content(), BigInt::from(-2));
    assert_eq!(p(&[-6]).content(), BigInt::from(-6));
    assert!(p(&[6, -4]).primitive_part() == p(&[-3, 2]));
    assert!(p(&[-6]).primitive_part() == p(&[1]));
}
'''
