prop = "I03"
needs = "squaring an interval that has zero as its lower or upper bound ... of more than one unit, at a nonzero precision"
breaks = "the square of an interval is computed from the wrong bound"
edits = [("src/interval_arithmetic.rs",
"        self.upper_bound_numer = -(-(&max * &max) >> self.log2_denom);\n        self\n",
"        let square = &max * &max;\n        let rounding = (BigInt::one() << self.log2_denom) - 1;\n        self.upper_bound_numer = if self.lower_bound_numer.is_zero() && !contains_zero {\n            // smaller than one unit everywhere\n            BigInt::one()\n        } else {\n            (square + rounding) >> self.log2_denom\n        };\n        self\n")]
demo = r'''
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use num_bigint::BigInt;
use num_rational::Ratio;
fn main() {
    for e in 0..6usize {
        for lo in -9i32..=9 {
            for hi in lo..=9 {
                let (l, h) = D::new(BigInt::from(lo), BigInt::from(hi), e).square().into_ratio_range();
                for x in lo..=hi {
                    let v = Ratio::new(BigInt::from(x * x), BigInt::from(1) << (2 * e));
                    assert!(l <= v && v <= h, "({}/2^{})^2 = {} not in {}..{}", x, e, v, l, h);
                }
            }
        }
    }
}
'''
needs = "squaring an interval away from zero whose lower bound squares to less than one unit while its upper bound squares to more"
breaks = "the upper bound of the square is cut to one unit, so squares of larger members are lost"
