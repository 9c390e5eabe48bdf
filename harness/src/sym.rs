use crate::H;
use num_bigint::{BigInt, BigUint};
use symrt::explore::{self, Config, Harness};
use symrt::{Stop, R};

pub fn int(name: &str, lo: i64, hi: i64) -> BigInt {
    BigInt::from_v(symrt::input(name, Some(R::from(lo)), Some(R::from(hi))))
}
/// any integer at all
pub fn any(name: &str) -> BigInt {
    BigInt::from_v(symrt::input(name, None, None))
}
/// any integer >= lo
pub fn at_least(name: &str, lo: i64) -> BigInt {
    BigInt::from_v(symrt::input(name, Some(R::from(lo)), None))
}
pub fn any_uint(name: &str) -> BigUint {
    BigUint::from_v(symrt::input(name, Some(R::from(0)), None))
}
/// a symbolic choice out of 0..n, made concrete
pub fn choose(name: &str, n: usize) -> usize {
    assert!(n > 0);
    use num_traits::ToPrimitive;
    int(name, 0, n as i64 - 1).to_usize().unwrap()
}
pub fn assume(b: bool) {
    symrt::assume(b)
}
pub fn cover(l: &str) {
    symrt::cover(l)
}
pub fn check_enter() {
    symrt::check_enter()
}
pub fn check_leave() {
    symrt::check_leave()
}
pub fn gcd_fork_limit(n: u64) {
    symrt::set_gcd_fork_limit(n)
}
pub const SYMBOLIC: bool = true;

/// text in which every integer is "\u{0}", and these integers
pub fn printed_impl(f: impl FnOnce() -> String) -> (String, Vec<BigInt>) {
    let (s, v) = symrt::with_tokens(f);
    let mut text = String::new();
    let mut vals = vec![];
    let mut token: Option<String> = None;
    for c in s.chars() {
        match (c, &mut token) {
            ('\u{27e8}', _) => token = Some(String::new()),
            ('\u{27e9}', Some(t)) => {
                vals.push(BigInt::from_v(v[t.parse::<usize>().unwrap()].clone()));
                text.push('\0');
                token = None;
            }
            (c, Some(t)) => t.push(c),
            (c, None) => text.push(c),
        }
    }
    (text, vals)
}
pub fn hashed_impl(f: impl FnOnce()) -> Vec<BigInt> {
    let (_, v) = symrt::with_tokens(f);
    v.into_iter().map(BigInt::from_v).collect()
}
/// what a value printed on its own looks like in `printed_impl`
pub fn shown(_: &BigInt) -> String {
    "\0".into()
}

pub fn panics_impl(f: impl FnOnce()) -> bool {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(()) => false,
        Err(e) => {
            if e.is::<Stop>() {
                std::panic::resume_unwind(e)
            }
            true
        }
    }
}

pub fn thorough() -> bool {
    std::env::var("VERIF_RUN_TIER").map_or(false, |t| t == "thorough")
}

pub fn main_(hs: &[H]) {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| {
        args.iter()
            .position(|a| a == k)
            .map(|i| args[i + 1].clone())
    };
    let only = get("--only");
    let thorough = thorough();
    let list: Vec<Harness> = hs
        .iter()
        .filter(|h| thorough || !h.thorough_only)
        .filter(|h| only.as_ref().map_or(true, |o| h.name == o))
        .map(|h| Harness {
            name: h.name,
            f: h.f,
            max_paths: h.max_paths,
            fuel: h.fuel,
            max_branches: 6000,
            covers: h.covers,
        })
        .collect();
    let num = |k: &str, d: u64| get(k).map_or(d, |v| v.parse().unwrap());
    let cfg = Config {
        workers: num("--workers", 8) as usize,
        timeout_ms: num("--timeout", 5000),
        fallback_ms: num("--fallback", 30000),
        deadline_s: num("--deadline", 600),
        hang_s: num("--hang", 90),
        max_obligations: num("--obligations", 400) as usize,
    };
    let reports = explore::run(&list, &cfg);
    let json = explore::report_json(&reports);
    match get("--out") {
        Some(p) => std::fs::write(p, json).unwrap(),
        None => println!("{}", json),
    }
    // worker threads may be stuck in a hung path
    std::process::exit(0);
}
