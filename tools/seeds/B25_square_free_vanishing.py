prop = "P10"
needs = "a polynomial over a prime field whose derivative vanishes"
breaks = "is_square_free takes a vanishing derivative for that of a constant, so p-th powers pass as square-free"
edits = [("src/polynomial.rs",
"        GCD::gcd(self, &self.derivative()).degree().unwrap_or(0) == 0\n",
"        let derivative = self.derivative();\n        if derivative.is_zero() {\n            return true;\n        }\n        GCD::gcd(self, &derivative).degree().unwrap_or(0) == 0\n")]
demo = r'''
use algebraics::mod_int::{KnownPrime, ModularInteger};
use algebraics::polynomial::Polynomial;
use num_bigint::BigInt;
fn main() {
    let check = |p: i32, v: &[i32], want: bool| {
        let f: Polynomial<_> = v
            .iter()
            .map(|&c| ModularInteger::new(BigInt::from(c), KnownPrime::new_unsafe(BigInt::from(p))))
            .collect::<Vec<_>>()
            .into();
        assert_eq!(f.is_square_free(), want, "{:?} mod {}", v, p);
    };
    check(3, &[1], true);
    check(3, &[1, 1], true);
    check(3, &[1, 0, 1], true);
    check(3, &[1, 2, 1], false);
    check(3, &[1, 0, 0, 1], false);
    check(2, &[1, 0, 1], false);
    check(5, &[3, 0, 0, 0, 0, 1], false);
}
'''
