use crate::H;
use num_bigint::{BigInt, BigUint};
use std::cell::RefCell;
use std::collections::HashMap;

thread_local! {
    static INPUTS: RefCell<HashMap<String, BigInt>> = RefCell::new(HashMap::new());
}

fn get(name: &str, lo: Option<i64>, hi: Option<i64>) -> BigInt {
    let v = INPUTS.with(|i| i.borrow().get(name).cloned());
    let v = v.unwrap_or_else(|| {
        let mut v = 1;
        if let Some(h) = hi {
            v = v.min(h)
        }
        if let Some(l) = lo {
            v = v.max(l)
        }
        v.into()
    });
    if lo.map_or(false, |l| v < BigInt::from(l)) || hi.map_or(false, |h| v > BigInt::from(h)) {
        eprintln!("input {} out of range: {}", name, v);
        std::process::exit(77);
    }
    v
}

pub fn int(name: &str, lo: i64, hi: i64) -> BigInt {
    get(name, Some(lo), Some(hi))
}
pub fn any(name: &str) -> BigInt {
    get(name, None, None)
}
pub fn at_least(name: &str, lo: i64) -> BigInt {
    get(name, Some(lo), None)
}
pub fn any_uint(name: &str) -> BigUint {
    get(name, Some(0), None).to_biguint().unwrap()
}
pub fn choose(name: &str, n: usize) -> usize {
    use num_traits::ToPrimitive;
    int(name, 0, n as i64 - 1).to_usize().unwrap()
}
pub fn assume(b: bool) {
    if !b {
        eprintln!("assumption does not hold");
        std::process::exit(77);
    }
}
pub fn cover(_: &str) {}
pub fn check_enter() {}
pub fn check_leave() {}
pub fn gcd_fork_limit(_: u64) {}
pub const SYMBOLIC: bool = false;

pub fn printed_impl(f: impl FnOnce() -> String) -> (String, Vec<BigInt>) {
    (f(), vec![])
}
pub fn hashed_impl(f: impl FnOnce()) -> Vec<BigInt> {
    f();
    vec![]
}
pub fn shown(v: &BigInt) -> String {
    v.to_string()
}

pub fn panics_impl(f: impl FnOnce()) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}

pub fn thorough() -> bool {
    std::env::var("VERIF_RUN_TIER").map_or(false, |t| t == "thorough")
}

/// exit codes: 0 property holds on these inputs, 101 violated (panic), 77 not applicable, 2 not run
pub fn main_(hs: &[H]) {
    let args: Vec<String> = std::env::args().collect();
    let (name, text) = match &args[..] {
        [_, verb, name, file] if verb == "replay" => (name, std::fs::read_to_string(file)),
        _ => {
            eprintln!("usage: replay HARNESS INPUTS   (one name=value per line)");
            std::process::exit(2);
        }
    };
    let text = match text {
        Ok(text) => text,
        Err(e) => {
            eprintln!("cannot read the inputs: {}", e);
            std::process::exit(2);
        }
    };
    for line in text.lines() {
        let parsed = line.split_once('=').map(|(n, v)| (n.trim(), v.trim().parse()));
        if let Some((n, Ok(v))) = parsed {
            INPUTS.with(|i| i.borrow_mut().insert(n.into(), v));
        } else {
            eprintln!("not an input: {}", line);
            std::process::exit(2);
        }
    }
    let h = match hs.iter().find(|h| h.name == name) {
        Some(h) => h,
        None => {
            eprintln!("no such harness: {}", name);
            std::process::exit(2);
        }
    };
    println!("replaying {} on {} inputs", name, text.lines().count());
    (h.f)();
    println!("holds");
}
