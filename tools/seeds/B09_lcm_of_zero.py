prop = "T01"
needs = "the least common multiple of zero and a rational, zero on the left"
breaks = "lcm(0, x) is x instead of 0"
edits = [("src/traits.rs",
"        if self.is_zero() {\n            return GCDAndLCM {\n                gcd: rhs.clone(),\n                lcm: Zero::zero(),\n",
"        if self.is_zero() {\n            return GCDAndLCM {\n                gcd: rhs.clone(),\n                lcm: rhs.clone(),\n")]
demo = r'''
use algebraics::traits::GCD;
use num_bigint::BigInt;
use num_rational::Ratio;
use num_traits::Zero;
fn main() {
    let z = Ratio::<BigInt>::zero();
    let x = Ratio::new(BigInt::from(2), BigInt::from(3));
    assert_eq!(x.gcd(&z), x);
    assert!(x.lcm(&z).is_zero());
    assert!(z.lcm(&x).is_zero());
}
'''
