prop = "I08"
needs = "a history of requests: a very precise constant first, then one of a precision in between"
breaks = "large entries that a precise computation fills in on the way are kept at a whole number of words, rounded down, so a later request between is answered with an interval that is far too wide"
edits = [("src/interval_arithmetic.rs",
"""            new_cache.push(computed_result.to_converted_log2_denom(log2_denom).into());
""",
"""            // keep big entries at a whole number of words
            let log2_denom = if log2_denom > 128 {
                log2_denom / 64 * 64
            } else {
                log2_denom
            };
            new_cache.push(computed_result.to_converted_log2_denom(log2_denom).into());
""")]
demo = r'''
use algebraics::interval_arithmetic::DyadicFractionInterval as D;
use num_bigint::BigInt;
fn width(v: D) -> BigInt {
    v.upper_bound_numer() - v.lower_bound_numer()
}
fn main() {
    assert!(width(D::sqrt_2(40)) <= BigInt::from(1));
    assert!(width(D::sqrt_2(700)) <= BigInt::from(1));
    for p in [3, 50, 64, 100, 200, 400, 700] {
        assert!(width(D::sqrt_2(p)) <= BigInt::from(1), "sqrt_2({})", p);
        assert!(width(D::natural_log_of_2(p)) <= BigInt::from(2), "natural_log_of_2({})", p);
    }
}
'''
