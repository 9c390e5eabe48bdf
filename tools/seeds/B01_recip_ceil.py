prop = "I04"
needs = "the reciprocal of a point interval at a negative value whose reciprocal is not representable at the precision"
breaks = "a shortcut for point intervals rounds the lower bound towards zero, so 1/x lies outside the returned interval"
edits = [("src/interval_arithmetic.rs",
"            let dividend = BigInt::one() << (2 * self.log2_denom);\n",
"            let dividend = BigInt::one() << (2 * self.log2_denom);\n"
"            if self.lower_bound_numer == self.upper_bound_numer {\n"
"                // a single point: one division gives both bounds\n"
"                let (quotient, remainder) = dividend.div_rem(&self.lower_bound_numer);\n"
"                let upper_bound_numer = if remainder.is_zero() {\n"
"                    quotient.clone()\n"
"                } else {\n"
"                    &quotient + 1\n"
"                };\n"
"                return Some(Self {\n"
"                    lower_bound_numer: quotient,\n"
"                    upper_bound_numer,\n"
"                    log2_denom: self.log2_denom,\n"
"                });\n"
"            }\n")]
demo = r'''
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use num_bigint::BigInt;
use num_rational::Ratio;
fn main() {
    for n in -20i32..=-1 {
        for e in 0..5usize {
            let i = D::new(BigInt::from(n), BigInt::from(n), e);
            let r = i.recip();
            let v = Ratio::new(BigInt::from(1) << e, BigInt::from(n));
            let (lo, hi) = r.into_ratio_range();
            assert!(lo <= v && v <= hi, "1/({}/2^{}) = {} not in {}..{}", n, e, v, lo, hi);
        }
    }
}
'''
