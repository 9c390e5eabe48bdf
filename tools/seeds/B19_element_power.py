prop = "P12"
needs = "the power of a coefficient element with an exponent divisible by four"
breaks = "element_pow_usize squares too rarely and returns a lower power"
edits = [("src/polynomial.rs",
"    fn element_pow_usize(mut base: Self::Element, mut exponent: usize) -> Self::Element {\n        if exponent == 0 {\n            return Self::make_one_element(Cow::Owned(base));\n        }\n        let mut retval = None;\n        loop {\n            if exponent % 2 != 0 {\n                match &mut retval {\n                    None => retval = Some(base.clone()),\n                    Some(retval) => *retval *= &base,\n                }\n            }\n            exponent /= 2;\n            if exponent == 0 {\n                break;\n            }\n            base *= base.clone();\n        }\n",
"    fn element_pow_usize(mut base: Self::Element, mut exponent: usize) -> Self::Element {\n        if exponent == 0 {\n            return Self::make_one_element(Cow::Owned(base));\n        }\n        let mut retval = None;\n        loop {\n            if exponent % 2 != 0 {\n                match &mut retval {\n                    None => retval = Some(base.clone()),\n                    Some(retval) => *retval *= &base,\n                }\n            }\n            exponent /= 2;\n            if exponent == 0 {\n                break;\n            }\n            if exponent % 2 != 0 || retval.is_some() {\n                base *= base.clone();\n            }\n        }\n")]
demo = r'''
use algebraics::polynomial::PolynomialCoefficient;
use num_bigint::BigInt;
fn main() {
    for (n, want) in [(0usize, 1), (1, 3), (2, 9), (3, 27), (5, 243), (6, 729), (4, 81), (8, 6561)] {
        assert_eq!(BigInt::element_pow_usize(3.into(), n), BigInt::from(want), "3^{}", n);
    }
}
'''
