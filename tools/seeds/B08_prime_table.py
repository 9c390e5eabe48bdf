prop = "U01"
needs = "a number whose smallest prime factor is 63647"
breaks = "63647 is missing from the table of primes, so its square counts as prime"
edits = [("src/util.rs", "    63629, 63647, 63649,", "    63629, 63629, 63649,")]
demo = r'''
use algebraics::util::*;
fn main() {
    assert!(is_prime_u32(63647));
    assert!(is_prime_u32(63647 + 2));
    assert!(!is_prime_u32(63649 * 63649));
    assert!(!is_prime_u32(63647 * 63647));
}
'''
