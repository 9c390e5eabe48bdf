//! The Python class, called the way the interpreter calls it.
//! crate: py
//! encodes: python.rs: #[new], __add__/__radd__, __sub__/__rsub__, __mul__/__rmul__, __truediv__/__rtruediv__, __pow__/__rpow__, __richcmp__, __neg__, __abs__, __repr__, __trunc__, __floor__, __ceil__, to_integer, to_rational, minimal_polynomial, degree, is_rational, is_integer, recip, floor_log2, ceil_log2, SharedNumber conversions, arithmetic_helper, try_arithmetic_helper; RealAlgebraicNumber behind them
//! outside: CPython itself and pyo3's generated glue (a stand-in models argument extraction, NotImplemented and reflected operators); numerators and denominators beyond -3..3 and 1..3 in operators with two operands (integers alone are any size); irrational operands other than square roots of 2, 3, 5 and 8 and their sums, products and quotients with small integers; fractional powers of integers other than nine between -8 and 9; the interval shown by __repr__
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use pyo3::basic::CompareOp;
use pyo3::{binary_op, compare, Obj, Outcome, PyAny, PyErr, PyModule, PyObject, PyResult};
use verif_harness::spec::*;
use verif_harness::*;

fn module() -> PyModule {
    algebraics::python::__pyo3_import().expect("import")
}
fn done(o: Outcome, what: &str) -> PyResult<PyObject> {
    match o {
        Outcome::Done(v) => v,
        Outcome::NoMethod => panic!("PROPERTY VIOLATED: no such method: {}", what),
        Outcome::BadArguments => Err(PyErr::new("TypeError", format!("arguments of {}", what))),
    }
}
fn new(v: &BigInt) -> PyObject {
    done(module().construct("RealAlgebraicNumber", &[PyObject::int(v.clone()).any()]), "new").expect("constructor")
}
fn get(o: &PyObject, name: &str) -> PyObject {
    call(o, name).unwrap_or_else(|e| panic!("PROPERTY VIOLATED: {}: {}", name, e))
}
fn call(o: &PyObject, name: &str) -> PyResult<PyObject> {
    done(o.any().call(name, &[]), name)
}
fn as_int(o: &PyObject) -> BigInt {
    match o.obj() {
        Obj::Int(v) => v.clone(),
        _ => panic!("PROPERTY VIOLATED: not an integer"),
    }
}
fn as_bool(o: &PyObject) -> bool {
    match o.obj() {
        Obj::Bool(v) => *v,
        _ => panic!("PROPERTY VIOLATED: not a bool"),
    }
}
fn is_none(o: &PyObject) -> bool {
    o.any().is_none()
}
/// the exact rational value
fn ratio(o: &PyObject) -> Option<(BigInt, BigInt)> {
    match get(o, "to_rational").obj() {
        Obj::None => None,
        Obj::Tuple(v) if v.len() == 2 => Some((as_int(&v[0]), as_int(&v[1]))),
        _ => panic!("PROPERTY VIOLATED: to_rational gives a pair or None"),
    }
}
fn is_ratio(o: &PyObject, n: &BigInt, d: &BigInt) -> bool {
    match ratio(o) {
        Some((a, b)) => b.is_positive() && a.gcd(&b).is_one() && a * d == n * b,
        None => false,
    }
}
fn op(name: &str, a: &PyAny, b: &PyAny) -> PyResult<PyObject> {
    binary_op(name, a, b, None)
}
fn quotient(n: &BigInt, d: &BigInt) -> PyObject {
    op("truediv", new(n).any(), new(d).any()).expect("quotient")
}

fn construct() {
    let v = any("v");
    let o = new(&v);
    check!(as_int(&get(&o, "to_integer")) == v, "RealAlgebraicNumber(v).to_integer()");
    check!(is_ratio(&o, &v, &bi(1)), "to_rational of an integer");
    check!(as_bool(&get(&o, "is_integer")) && as_bool(&get(&o, "is_rational")), "is_integer");
    check!(as_int(&get(&o, "get degree")) == bi(1), "degree of an integer");
    match get(&o, "get minimal_polynomial").obj() {
        Obj::List(p) => check!(p.len() == 2 && as_int(&p[0]) == -&v && as_int(&p[1]) == bi(1), "minimal polynomial of an integer"),
        _ => check!(false, "minimal_polynomial is a list"),
    }
    for name in ["__trunc__", "__floor__", "__ceil__"] {
        check!(as_int(&get(&o, name)) == v, "rounding an integer");
    }
    check!(as_int(&get(&get(&o, "__neg__"), "to_integer")) == -&v, "-v");
    check!(as_int(&get(&get(&o, "__abs__"), "to_integer")) == v.abs(), "abs(v)");
    // from an instance, from nothing, from something else
    let m = module();
    let c = done(m.construct("RealAlgebraicNumber", &[o.any()]), "new").expect("copy");
    check!(as_int(&get(&c, "to_integer")) == v, "RealAlgebraicNumber(number)");
    let z = done(m.construct("RealAlgebraicNumber", &[]), "new").expect("default");
    check!(as_int(&get(&z, "to_integer")).is_zero(), "RealAlgebraicNumber()");
    for bad in [Obj::Float(1.5), Obj::Str("1".into())] {
        check!(done(m.construct("RealAlgebraicNumber", &[PyObject::of(bad).any()]), "new").is_err(), "only numbers are accepted");
    }
}

/// the text of repr(o) as far as it does not depend on how closely the number is bounded
fn repr_head(o: &PyObject) -> String {
    match get(o, "__repr__").obj() {
        Obj::Str(s) => {
            let (head, tail) = match s.find(", interval: ") {
                Some(i) => s.split_at(i),
                None => panic!("PROPERTY VIOLATED: repr shows the interval"),
            };
            check!(tail.starts_with(", interval: DyadicFractionInterval { lower_bound_numer: ") && tail.ends_with(" } }>"), "repr ends with the interval");
            head.to_string()
        }
        _ => panic!("PROPERTY VIOLATED: repr is a string"),
    }
}
fn repr() {
    use Part::*;
    let v = any("v");
    let d = bi([1, 2, 3][choose("d", if thorough() { 3 } else { 2 })]);
    let o = quotient(&v, &d);
    let (n, d) = ratio(&o).expect("rational");
    let parts = [T("<RealAlgebraicNumber { minimal_polynomial: "), V(-n), T(" + "), V(d), T("*X")];
    check!(prints(|| repr_head(&o), &parts), "repr shows the minimal polynomial");
    let k = [2, 3, 5][choose("k", if thorough() { 3 } else { 1 })];
    let parts = [T("<RealAlgebraicNumber { minimal_polynomial: "), V(bi(-k)), T(" + "), V(bi(0)), T("*X + "), V(bi(1)), T("*X^2")];
    let s = root(k);
    check!(prints(|| repr_head(&s), &parts), "repr of a square root");
}

/// a rational operand and how it is passed: as an instance or, for integers, as a Python int
fn operand(name: &str) -> (BigInt, BigInt, PyObject) {
    let n = int(&format!("{}_n", name), -3, 3);
    match choose(&format!("{}_form", name), 4) {
        0 => (n.clone(), bi(1), PyObject::int(n)),
        d => {
            let d = bi(d as i64);
            (n.clone(), d.clone(), quotient(&n, &d))
        }
    }
}
fn instance(o: &PyObject) -> bool {
    matches!(o.obj(), Obj::Instance(..))
}
fn arithmetic() {
    let (a, b, x) = operand("x");
    let (c, d, y) = operand("y");
    assume(instance(&x) || instance(&y));
    let (x, y) = (x.any(), y.any());
    match choose("op", 4) {
        0 => check!(is_ratio(&op("add", x, y).expect("sum"), &(&a * &d + &c * &b), &(&b * &d)), "x + y"),
        1 => check!(is_ratio(&op("sub", x, y).expect("difference"), &(&a * &d - &c * &b), &(&b * &d)), "x - y"),
        2 => check!(is_ratio(&op("mul", x, y).expect("product"), &(&a * &c), &(&b * &d)), "x * y"),
        _ => match op("truediv", x, y) {
            Ok(q) => {
                cover("quotient");
                check!(!c.is_zero(), "division by zero is refused");
                check!(is_ratio(&q, &(&a * &d), &(&b * &c)), "x / y");
            }
            Err(e) => {
                cover("division by zero");
                check!(c.is_zero() && e.kind == "ZeroDivisionError", "only division by zero is refused");
            }
        },
    }
}
const OPS: [CompareOp; 6] = [CompareOp::Lt, CompareOp::Le, CompareOp::Eq, CompareOp::Ne, CompareOp::Gt, CompareOp::Ge];
fn holds(op: CompareOp, less: bool, equal: bool) -> bool {
    match op {
        CompareOp::Lt => less,
        CompareOp::Le => less || equal,
        CompareOp::Eq => equal,
        CompareOp::Ne => !equal,
        CompareOp::Gt => !less && !equal,
        CompareOp::Ge => !less,
    }
}
fn comparisons() {
    let (a, b, x) = operand("x");
    let (c, d, y) = operand("y");
    assume(instance(&x) || instance(&y));
    let op = OPS[choose("op", 6)];
    let (l, r) = (&a * &d, &c * &b);
    let v = compare(x.any(), y.any(), op).expect("comparable").expect("comparison");
    check!(as_bool(&v) == holds(op, l < r, l == r), "comparison");
}
fn unary() {
    let n = int("n", -9, 9);
    let d = bi(1 + choose("d", 3) as i64);
    let x = quotient(&n, &d);
    check!(is_ratio(&x, &n, &d), "n / d");
    check!(is_ratio(&get(&x, "__neg__"), &-&n, &d), "-x");
    check!(is_ratio(&get(&x, "__abs__"), &n.abs(), &d), "abs(x)");
    let fl = Integer::div_floor(&n, &d);
    let ce = -Integer::div_floor(&-&n, &d);
    check!(as_int(&get(&x, "__floor__")) == fl, "math.floor(x)");
    check!(as_int(&get(&x, "__ceil__")) == ce, "math.ceil(x)");
    check!(as_int(&get(&x, "__trunc__")) == if n.is_negative() { ce.clone() } else { fl.clone() }, "math.trunc(x)");
    check!(as_bool(&get(&x, "is_rational")), "is_rational");
    let whole = (&n % &d).is_zero();
    check!(as_bool(&get(&x, "is_integer")) == whole, "is_integer");
    let i = get(&x, "to_integer");
    check!(is_none(&i) != whole && (!whole || as_int(&i) == fl), "to_integer");
    match call(&x, "recip") {
        Ok(r) => check!(!n.is_zero() && is_ratio(&r, &d, &n), "recip"),
        Err(e) => check!(n.is_zero() && e.kind == "ZeroDivisionError", "recip of zero"),
    }
    for (name, up) in [("floor_log2", false), ("ceil_log2", true)] {
        match call(&x, name) {
            Ok(l) => {
                cover("logarithm");
                check!(n.is_positive(), "no logarithm at or below zero");
                let l = as_int(&l);
                check!(l.abs() <= bi(5), "size of the logarithm");
                // 2^l * d compared with n, all scaled by 2^6
                let two = |e: &BigInt| -> BigInt {
                    let mut r = &d * pow2(1);
                    let mut k = bi(-5);
                    while &k < e {
                        r = r * bi(2);
                        k = k + bi(1);
                    }
                    r
                };
                let s: BigInt = &n * pow2(6);
                if up {
                    check!(two(&(&l - bi(1))) < s && s <= two(&l), "ceil_log2")
                } else {
                    check!(two(&l) <= s && s < two(&(&l + bi(1))), "floor_log2")
                }
            }
            Err(e) => {
                cover("no logarithm");
                check!(!n.is_positive() && e.kind == "ValueError", "logarithm refused")
            }
        }
    }
}
/// integer exponents, on either side as a Python int
fn powers() {
    let (a, b, x) = operand("x");
    let e = choose("e", 6) as i64 - 2;
    let y = if choose("y_form", 2) == 0 { PyObject::int(bi(e)) } else { new(&bi(e)) };
    assume(instance(&x) || instance(&y));
    if choose("modulus", 2) == 1 {
        let r = binary_op("pow", x.any(), y.any(), Some(PyObject::int(bi(5)).any()));
        check!(r.map_or_else(|e| e.kind == "TypeError", |_| false), "pow with three arguments is refused");
        return;
    }
    match op("pow", x.any(), y.any()) {
        Ok(r) => {
            cover("power");
            check!(!a.is_zero() || e > 0, "zero to an exponent not above zero is refused");
            let (mut n, mut d) = (bi(1), bi(1));
            for _ in 0..e.abs() {
                n = n * &a;
                d = d * &b;
            }
            if e < 0 {
                check!(is_ratio(&r, &d, &n), "x ** e")
            } else {
                check!(is_ratio(&r, &n, &d), "x ** e")
            }
        }
        Err(err) => {
            cover("no power");
            check!(a.is_zero() && e <= 0 && err.kind == "ValueError", "power refused")
        }
    }
}
/// the square root of n plus an integer
fn root(n: i64) -> PyObject {
    op("pow", new(&bi(n)).any(), quotient(&bi(1), &bi(2)).any()).expect("square root")
}
/// is 0 < n (the number's square) compared with v exact: the order of sqrt(n) and v
fn below_root(v: &BigInt, n: i64) -> bool {
    v.is_negative() || v * v < bi(n)
}
fn irrational() {
    let n = [2, 3, 5, 8][choose("n", if thorough() { 4 } else { 2 })];
    let s = root(n);
    let c = bi([-2, 0, 3, 1, -4][choose("c", if thorough() { 5 } else { 3 })]);
    let v = if choose("form", 2) == 0 { PyObject::int(c.clone()) } else { new(&c) };
    // c + s, s + c, s - c, c - s: (sign of s, sign of c)
    let (r, ss, sc) = match choose("op", 4) {
        0 => (op("add", s.any(), v.any()), 1, 1),
        1 => (op("add", v.any(), s.any()), 1, 1),
        2 => (op("sub", s.any(), v.any()), 1, -1),
        _ => (op("sub", v.any(), s.any()), -1, 1),
    };
    let r = r.expect("sum");
    let c = c * bi(sc);
    check!(ratio(&r).is_none() && is_none(&get(&r, "to_integer")), "an irrational number has no rational value");
    check!(!as_bool(&get(&r, "is_rational")) && !as_bool(&get(&r, "is_integer")), "is_rational");
    check!(as_int(&get(&r, "get degree")) == bi(2), "degree");
    match get(&r, "get minimal_polynomial").obj() {
        // (X - c)^2 - n
        Obj::List(p) => check!(
            p.len() == 3 && as_int(&p[0]) == &c * &c - bi(n) && as_int(&p[1]) == &c * bi(-2) && as_int(&p[2]) == bi(1),
            "minimal polynomial"
        ),
        _ => check!(false, "minimal_polynomial is a list"),
    }
    // which of the two roots, by comparing with an integer: r < k exactly when ss * sqrt(n) < k - c
    let k = int("k", -7, 7);
    let t = &k - &c;
    let less = if ss > 0 { !below_root(&t, n) } else { below_root(&-&t, n) };
    let o = OPS[choose("cmp", 6)];
    let pk = PyObject::int(k);
    let a = compare(r.any(), pk.any(), o).expect("comparable").expect("comparison");
    check!(as_bool(&a) == holds(o, less, false), "number compared with int");
    let b = compare(pk.any(), r.any(), o).expect("comparable").expect("comparison");
    check!(as_bool(&b) == holds(o, !less, false), "int compared with number");
}
fn irrational_products() {
    let n = [2, 3, 5, 8][choose("n", 4)];
    let s = root(n);
    let c = bi([-3, -1, 1, 2][choose("c", 4)]);
    let v = if choose("form", 2) == 0 { PyObject::int(c.clone()) } else { new(&c) };
    // the value squared and its sign
    let (r, num, den) = match choose("op", 6) {
        0 => (op("mul", s.any(), v.any()), &c * &c * bi(n), bi(1)),
        1 => (op("mul", v.any(), s.any()), &c * &c * bi(n), bi(1)),
        2 => (op("truediv", s.any(), v.any()), bi(n), &c * &c),
        3 => (op("truediv", v.any(), s.any()), &c * &c, bi(n)),
        4 => (op("mul", get(&s, "recip").any(), v.any()), &c * &c, bi(n)),
        _ => (op("mul", get(&s, "__neg__").any(), op("sub", PyObject::int(bi(0)).any(), v.any()).unwrap_or_else(|_| PyObject::int(-&c)).any()), &c * &c * bi(n), bi(1)),
    };
    let r = r.expect("product");
    check!(as_int(&get(&r, "get degree")) == bi(2), "degree");
    let sq = op("mul", r.any(), r.any()).expect("square");
    check!(is_ratio(&sq, &num, &den), "the square of the result");
    let zero = PyObject::int(bi(0));
    let neg = as_bool(&compare(r.any(), zero.any(), CompareOp::Lt).expect("comparable").expect("comparison"));
    check!(neg == c.is_negative(), "sign of the result");
    // rounding
    let f = as_int(&get(&r, "__floor__"));
    let g = &f + bi(1);
    if neg {
        // f < r < f + 1 <= 0
        check!(&f * &f * &den > num && &g * &g * &den < num && !g.is_positive(), "math.floor")
    } else {
        check!(&f * &f * &den < num && &g * &g * &den > num && !f.is_negative(), "math.floor")
    }
    check!(as_int(&get(&r, "__ceil__")) == g, "math.ceil");
    check!(as_int(&get(&r, "__trunc__")) == if neg { g } else { f }, "math.trunc");
    let a = get(&r, "__abs__");
    check!(as_bool(&compare(a.any(), zero.any(), CompareOp::Gt).unwrap().unwrap()), "abs is positive");
    let back = op("mul", a.any(), a.any()).expect("square");
    check!(is_ratio(&back, &num, &den), "abs");
}
/// fractional exponents and the refusals
fn roots() {
    let b = bi([-8, -4, -1, 0, 1, 2, 4, 8, 9][choose("b", 9)]);
    let q = 2 + choose("q", 2) as i64;
    let p = [-1, 1, 2][choose("p", 3)];
    assume((p * 1) % q != 0);
    let e = quotient(&bi(p), &bi(q));
    let x = if choose("form", 2) == 0 { PyObject::int(b.clone()) } else { new(&b) };
    match op("pow", x.any(), e.any()) {
        Ok(r) => {
            cover("root");
            check!(b.is_positive() || (b.is_zero() && p > 0), "a power with no definite real value is refused");
            let back = op("pow", r.any(), PyObject::int(bi(q)).any()).expect("power");
            let (n, d) = match p {
                -1 => (bi(1), b.clone()),
                1 => (b.clone(), bi(1)),
                _ => (&b * &b, bi(1)),
            };
            check!(is_ratio(&back, &n, &d), "(b ** (p/q)) ** q == b ** p");
            let zero = PyObject::int(bi(0));
            let neg = as_bool(&compare(r.any(), zero.any(), CompareOp::Lt).expect("comparable").expect("comparison"));
            check!(!neg, "the positive root");
        }
        Err(err) => {
            cover("refused");
            check!(!b.is_positive() && !(b.is_zero() && p > 0) && err.kind == "ValueError", "power refused")
        }
    }
    // an irrational exponent is refused
    let r = op("pow", new(&bi(2)).any(), root(3).any());
    check!(r.map_or_else(|e| e.kind == "ValueError", |_| false), "irrational exponent");
}
/// operands that are no numbers
fn foreign() {
    let x = new(&any("x"));
    let f = match choose("f", 3) {
        0 => PyObject::of(Obj::Float(1.5)),
        1 => PyObject::none(),
        _ => PyObject::of(Obj::Str("1".into())),
    };
    let name = ["add", "sub", "mul", "truediv", "pow"][choose("op", 5)];
    for r in [op(name, x.any(), f.any()), op(name, f.any(), x.any())] {
        check!(r.map_or_else(|e| e.kind == "TypeError", |_| false), "operands of other types are refused");
    }
    check!(compare(x.any(), f.any(), OPS[choose("cmp", 6)]).is_none(), "not comparable");
}

fn main() {
    main_(&[
        h("construct", construct),
        h("arithmetic", arithmetic).covers(&["quotient", "division by zero"]),
        h("comparisons", comparisons),
        h("unary", unary).covers(&["logarithm", "no logarithm"]),
        h("powers", powers).covers(&["power", "no power"]),
        h("irrational", irrational),
        h("irrational_products", irrational_products),
        h("roots", roots).covers(&["root", "refused"]),
        h("foreign", foreign),
        h("repr", repr),
    ])
}
