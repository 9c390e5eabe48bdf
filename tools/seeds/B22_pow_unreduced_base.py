prop = "M02"
needs = "pow_modular_reduce of an unreduced base with exponent one"
breaks = "the result is not reduced"
edits = [("src/mod_int.rs",
"                let mut base = *self;\n                base.modular_reduce_assign(modulus);\n                if exponent.is_one() {\n                    return base;\n                }\n",
"                let mut base = *self;\n                if exponent.is_one() {\n                    return base;\n                }\n                base.modular_reduce_assign(modulus);\n")]
demo = r'''
use algebraics::mod_int::ModularReducePow;
fn main() {
    for (b, e, want) in [(10u8, 2u8, 2u8), (10, 0, 1), (10, 3, 6), (10, 1, 3)] {
        assert_eq!(b.pow_modular_reduce(&e, 7u8), want, "{}^{} mod 7", b, e);
    }
}
'''
