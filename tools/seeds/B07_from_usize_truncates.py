prop = "M01"
needs = "a usize value above 32 bits"
breaks = "the residue of a large usize is that of its low 32 bits"
edits = [("src/mod_int.rs",
"    fn modular_reduce_from_usize<M: Modulus<Self>>(v: usize, modulus: M) -> Self {\n        Self::modular_reduce_from_u128(v as _, modulus)\n",
"    fn modular_reduce_from_usize<M: Modulus<Self>>(v: usize, modulus: M) -> Self {\n        Self::modular_reduce_from_u32(v as _, modulus)\n")]
demo = r'''
use algebraics::mod_int::ModularInteger;
fn main() {
    let m = |v: usize| *ModularInteger::<u32, u32>::from_usize(v, 1000).value();
    assert_eq!(m(123_456), 456);
    assert_eq!(m(1_000_000_000_123), 123);
}
'''
