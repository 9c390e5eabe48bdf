prop = "P02"
needs = "rational polynomials of different lengths whose sum has a smaller common denominator than the operands"
breaks = "the sum keeps an unreduced divisor, so it compares unequal to the same polynomial built directly"
edits = [("src/polynomial/add_sub.rs",
"    while lhs.len() < rhs.len() {\n",
"    // the leading term can only cancel when both have the same length\n    let can_cancel = lhs.len() == rhs.len();\n    while lhs.len() < rhs.len() {\n"),
("src/polynomial/add_sub.rs",
"            add_sub_assign(lhs_element, rhs_element.clone() * &rhs_multiplier);\n        }\n    }\n    lhs.normalize();\n",
"            add_sub_assign(lhs_element, rhs_element.clone() * &rhs_multiplier);\n        }\n    }\n    if can_cancel {\n        lhs.normalize();\n    }\n")]
demo = r'''
use algebraics::polynomial::Polynomial;
use num_bigint::BigInt;
use num_rational::Ratio;
fn r(n: i32, d: i32) -> Ratio<BigInt> { Ratio::new(n.into(), d.into()) }
fn main() {
    let a: Polynomial<_> = vec![r(1, 2)].into();
    let b: Polynomial<_> = vec![r(1, 2), r(2, 1)].into();
    assert_eq!(&a + &b, vec![r(1, 1), r(2, 1)].into());
    assert_eq!(b - a, vec![r(0, 1), r(2, 1)].into());
}
'''
