//! Square-free factorization and the square-free test.
//! encodes: Polynomial::{square_free_factorization_using_yuns_algorithm, is_square_free} for Ratio<BigInt>; is_square_free for ModularInteger<BigInt, KnownPrime<BigInt>>; gcd, primitive part, content, derivative, division
//! outside: polynomials with other than up to 4 (quick) / 5 (thorough) factors drawn from 6 fixed irreducible ones times one of 5 constants; powers up to 8 and 5 of 3 pairs of them; x - a with a any (first and second power); cubics with coefficients outside -2..2; fields other than GF(2) (degree 6), GF(3) (4), GF(5) (3), GF(7) (2), except (x^p - a), x^p - x and their multiples
use num_traits::{One, Signed, ToPrimitive, Zero};
use verif_harness::spec::*;
use verif_harness::*;

fn irreducible(k: usize) -> Vec<BigInt> {
    let f: [&[i64]; 6] = [&[0, 1], &[-1, 1], &[1, 2], &[-5, 3], &[1, 0, 1], &[-2, 0, 3]];
    f[k].iter().map(|&x| bi(x)).collect()
}

/// the factorization the definition asks for: content and the product of the factors of each multiplicity
fn by_construction() {
    let nf = 1 + choose("nf", if thorough() { 5 } else { 4 });
    let (cn, cd) = [(1, 1), (-1, 1), (6, 1), (2, 3), (-3, 4)][choose("c", 5)];
    let mut mult = [0usize; 6];
    let mut prev = 0;
    let mut v = vec![bi(cn)];
    for i in 0..nf {
        let k = prev + choose(&format!("f{}", i), 6 - prev);
        prev = k;
        mult[k] += 1;
        v = vmul(&v, &irreducible(k));
    }
    let p = QP::from((v, bi(cd)));
    let f = p.square_free_factorization_using_yuns_algorithm();
    check!(f.constant_factor == Ratio::new(bi(cn), bi(cd)), "constant factor");
    let top = *mult.iter().max().unwrap();
    if top > 2 {
        cover("third power");
    }
    check!(f.polynomial_factors.len() == top, "one factor per multiplicity");
    for m in 1..=top {
        let mut e = vec![bi(1)];
        for k in 0..6 {
            if mult[k] == m {
                e = vmul(&e, &irreducible(k));
            }
        }
        check!(is_qp(&f.polynomial_factors[m - 1], &e, &bi(1)), "factor of multiplicity {}", m);
    }
    check!(p.is_square_free() == (top == 1), "is_square_free");
}

/// every small cubic: the factors multiply to the polynomial and are square-free, primitive and pairwise coprime
fn by_property() {
    let n = choose("n", 5);
    let v = trim(chosen_vec("c", n, -2, 2));
    let p = QP::from((v.clone(), bi(1)));
    let f = p.square_free_factorization_using_yuns_algorithm();
    if v.len() <= 1 {
        check!(f.polynomial_factors.is_empty(), "a constant has no factors");
        check!(f.constant_factor == Ratio::from(at(&v, 0)), "constant");
        return;
    }
    check!(f.constant_factor.is_negative() == v.last().unwrap().is_negative(), "sign");
    let mut prod: Vec<BigInt> = vec![f.constant_factor.numer().clone()];
    check!(f.constant_factor.denom().is_one(), "integral constant");
    let mut repeated = false;
    let mut all = vec![bi(1)];
    for (i, q) in f.polynomial_factors.iter().enumerate() {
        let (e, d) = q.clone().split_out_divisor();
        check!(d.is_one() && e.last().unwrap().is_positive(), "primitive factors");
        for _ in 0..=i {
            prod = vmul(&prod, &e);
        }
        all = vmul(&all, &e);
        if i > 0 && e.len() > 1 {
            repeated = true;
            cover("repeated");
        }
        if i + 1 == f.polynomial_factors.len() {
            check!(e.len() > 1, "last factor is not constant");
        }
    }
    check!(veq(&prod, &v), "the factors multiply to the polynomial");
    check!(discriminant_nonzero(&all), "the factors are square-free and coprime");
    check!(p.is_square_free() == !repeated, "is_square_free");
}
/// no common factor with the derivative: decided by a plain Euclid over the rationals on integer vectors
fn discriminant_nonzero(v: &[BigInt]) -> bool {
    let (mut a, mut b) = (trim(v.to_vec()), trim(vderiv(v)));
    while !b.is_empty() {
        let mut r = a.clone();
        while r.len() >= b.len() {
            let (t, l) = (r.last().unwrap().clone(), b.last().unwrap().clone());
            let s = r.len() - b.len();
            for x in r.iter_mut() {
                *x = &*x * &l;
            }
            for (i, c) in b.iter().enumerate() {
                r[s + i] = &r[s + i] - &t * c;
            }
            r.pop();
        }
        a = b;
        b = trim(r);
    }
    a.len() <= 1
}

/// high powers, alone and two together
fn high_powers() {
    let (i, j) = [(0, 1), (2, 4), (3, 5)][choose("pair", 3)];
    let (m, n) = (choose("m", 9), choose("n", 6));
    let (cn, cd) = [(1, 1), (-3, 4)][choose("c", 2)];
    let mut v = vec![bi(cn)];
    for _ in 0..m {
        v = vmul(&v, &irreducible(i));
    }
    for _ in 0..n {
        v = vmul(&v, &irreducible(j));
    }
    let p = QP::from((v, bi(cd)));
    let f = p.square_free_factorization_using_yuns_algorithm();
    check!(f.constant_factor == Ratio::new(bi(cn), bi(cd)), "constant factor");
    check!(f.polynomial_factors.len() == m.max(n), "one factor per multiplicity");
    for k in 1..=m.max(n) {
        let mut e = vec![bi(1)];
        if m == k {
            e = vmul(&e, &irreducible(i));
        }
        if n == k {
            e = vmul(&e, &irreducible(j));
        }
        check!(is_qp(&f.polynomial_factors[k - 1], &e, &bi(1)), "factor of multiplicity {}", k);
    }
    check!(p.is_square_free() == (m.max(n) <= 1), "is_square_free");
}
/// (x - a)^k for any a, and (x - a)(x - b)
fn symbolic_root() {
    let a = any("a");
    let l = vec![-&a, bi(1)];
    let k = 1 + choose("k", 2);
    let mut v = vec![bi(1)];
    for _ in 0..k {
        v = vmul(&v, &l);
    }
    let f = QP::from((v, bi(1))).square_free_factorization_using_yuns_algorithm();
    check!(f.constant_factor.is_one() && f.polynomial_factors.len() == k, "multiplicity");
    for (i, q) in f.polynomial_factors.iter().enumerate() {
        let e = if i + 1 == k { l.clone() } else { vec![bi(1)] };
        check!(is_qp(q, &e, &bi(1)), "factor");
    }
}

fn field() {
    let k = choose("m", 4);
    let m = bi([2, 3, 5, 7][k]);
    let n = choose("n", [7, 5, 4, 3][k]);
    let v: Vec<BigInt> = (0..n).map(|i| bi(choose(&format!("c{}", i), m.to_usize().unwrap()) as i64)).collect();
    let p = fp(&v, &m);
    let got = p.is_square_free();
    // oracle: no square of a monic polynomial of degree 1, 2 or (GF(2)) 3 divides it
    let v = trim(v);
    assume(!v.is_empty());
    let mut free = true;
    let mm = m.to_i64().unwrap();
    for a in 0..mm {
        for b in 0..=mm {
            let l = if b == mm { vec![bi(a), bi(1)] } else { vec![bi(a), bi(b), bi(1)] };
            let s = fp(&vmul(&l, &l), &m);
            if s.len() <= p.len() && (&p % &s).is_zero() {
                free = false;
            }
        }
    }
    if p.len() == 7 {
        for a in 0..8i64 {
            let l = vec![bi(a & 1), bi(a >> 1 & 1), bi(a >> 2), bi(1)];
            if (&p % &fp(&vmul(&l, &l), &m)).is_zero() {
                free = false;
            }
        }
    }
    check!(got == free, "is_square_free over GF({})", m);
}

/// p-th powers and their neighbours: the derivative vanishes
fn field_powers() {
    let p = [2i64, 3, 5, 7][choose("p", 4)];
    let m = bi(p);
    let a = choose("a", p as usize) as i64;
    let mut v = vec![bi(0); p as usize + 1];
    v[0] = bi((p - a) % p);
    v[p as usize] = bi(1);
    let f = fp(&v, &m);
    // x^p - a = (x - a)^p
    check!(!f.is_square_free(), "x^p - a is a p-th power");
    let g = &f * fp(&[bi(1), bi(1)], &m);
    check!(!g.is_square_free(), "a p-th power times anything is not square-free");
    // x^p - x has every element as a root, once
    let mut w = vec![bi(0); p as usize + 1];
    w[1] = bi(p - 1);
    w[p as usize] = bi(1);
    let all = fp(&w, &m);
    check!(all.is_square_free(), "x^p - x is square-free");
    check!(!(&all * fp(&[bi(a), bi(1)], &m)).is_square_free(), "(x^p - x)(x + a) has a double root");
    // x^p - x + 1 is irreducible
    w[0] = bi(1);
    check!(fp(&w, &m).is_square_free(), "x^p - x + 1 is square-free");
}

fn main() {
    main_(&[
        h("by_construction", by_construction).covers(&["third power"]),
        h("by_property", by_property).covers(&["repeated"]),
        h("high_powers", high_powers),
        h("symbolic_root", symbolic_root),
        h("field", field),
        h("field_powers", field_powers),
    ]);
}
