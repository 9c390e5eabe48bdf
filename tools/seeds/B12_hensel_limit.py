prop = "P11"
needs = "a factor with coefficients larger than the first modulus that lifting reaches under the smaller bound"
breaks = "the lifting bound leaves out the size of the coefficients, so true factors are not recognised"
edits = [("src/polynomial/factorization_over_integers.rs",
"            ((max_norm_squared * highest_power_coefficient_squared) << (degree * 2)) * (degree + 1);\n",
"            (highest_power_coefficient_squared << (degree * 2)) * (degree + 1);\n"),
("src/polynomial/factorization_over_integers.rs",
"        let max_norm = self.max_norm();\n        let max_norm_squared = &max_norm * &max_norm;\n",
"")]
demo = r'''
use algebraics::polynomial::Polynomial;
use num_bigint::BigInt;
fn p(c: &[i64]) -> Polynomial<BigInt> { c.iter().map(|v| BigInt::from(*v)).collect::<Vec<_>>().into() }
fn main() {
    let f = p(&[-2, 0, 1]) * p(&[-3, 1]);
    assert_eq!(f.factor().polynomial_factors.len(), 2);
    let f = p(&[-1_000_003, 1]) * p(&[1_000_033, 1]);
    assert_eq!(f.factor().polynomial_factors.len(), 2);
}
'''
