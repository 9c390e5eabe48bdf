//! Sturm sequences count the distinct real roots of every interval.
//! encodes: Polynomial::{to_sturm_sequence, into_sturm_sequence, to_primitive_sturm_sequence, into_primitive_sturm_sequence}, into_generic_sturm_sequence, derivative, pseudo_div_rem, Rem, nonzero_content, exact_div, for T = Ratio<BigInt> and BigInt
//! outside: polynomials with other than up to 3 (quick; rational: 2) / 4 (thorough) factors drawn from linear ones with the listed roots and quadratics without real roots (interval end points: any half-integers); sequences of symbolic polynomials: degree 2 with leading coefficient 1 or -1 (other coefficients any), degree 3 with coefficients in -2..2, 12 shapes of degree up to 8 (and squares of up to 8) with one coefficient in -4..4
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use verif_harness::spec::*;
use verif_harness::*;

fn sign_changes(vals: &[BigInt]) -> usize {
    let mut last: Option<bool> = None;
    let mut n = 0;
    for v in vals {
        if v.is_zero() {
            continue;
        }
        let s = v.is_negative();
        if last.map_or(false, |l| l != s) {
            n += 1;
        }
        last = Some(s);
    }
    n
}

/// 2^deg * p(x/2), sign only
fn at_half(v: &[BigInt], x: &BigInt) -> BigInt {
    let mut r = bi(0);
    let mut scale = bi(1);
    for c in v.iter().rev() {
        r = r * x + c * &scale;
        scale = scale * bi(2);
    }
    r
}

/// lead * product of (den*x - num)^mult * quadratics; returns coefficients and the roots (num, den)
fn factored(quick: usize) -> (Vec<BigInt>, Vec<(i64, i64)>) {
    let roots: [(i64, i64); 6] = [(0, 1), (1, 1), (-1, 1), (1, 2), (-5, 3), (3, 1)];
    let kinds = roots.len() + 2;
    let nf = 1 + choose("nf", if thorough() { 4 } else { quick });
    let mut v = vec![bi([1, -1, 3, -6][choose("lead", 4)])];
    let mut rs = vec![];
    let mut prev = 0;
    for i in 0..nf {
        // non-decreasing choice: a multiset
        let k = prev + choose(&format!("f{}", i), kinds - prev);
        prev = k;
        let f = if k < roots.len() {
            if !rs.contains(&roots[k]) {
                rs.push(roots[k]);
            }
            vec![bi(-roots[k].0), bi(roots[k].1)]
        } else if k == roots.len() {
            vec![bi(1), bi(0), bi(1)]
        } else {
            vec![bi(3), bi(-2), bi(2)]
        };
        v = vmul(&v, &f);
    }
    (v, rs)
}

fn count_spec(seq: &[Vec<BigInt>], rs: &[(i64, i64)]) {
    // any half-integers a < b: the number of roots in (a, b]
    let a = any("a");
    let b = any("b");
    assume(a < b);
    // the end points are no multiple roots of the polynomial (Sturm's theorem excludes them)
    let va: Vec<_> = seq.iter().map(|p| at_half(p, &a)).collect();
    let vb: Vec<_> = seq.iter().map(|p| at_half(p, &b)).collect();
    assume(!(va[0].is_zero() && va.get(1).map_or(true, |x| x.is_zero())));
    assume(!(vb[0].is_zero() && vb.get(1).map_or(true, |x| x.is_zero())));
    let mut expect = 0;
    for (n, d) in rs {
        // a/2 < n/d <= b/2
        if &a * bi(*d) < bi(2 * n) && bi(2 * n) <= &b * bi(*d) {
            expect += 1;
        }
    }
    check!(sign_changes(&va) == sign_changes(&vb) + expect, "sign changes count the roots in (a, b]");
}

fn count_primitive() {
    let (v, rs) = factored(3);
    let seq = zp(&v).to_primitive_sturm_sequence();
    let seq: Vec<Vec<BigInt>> = seq.into_iter().map(|p| p.split_out_divisor().0).collect();
    count_spec(&seq, &rs);
}
fn count_rational() {
    let (v, rs) = factored(2);
    let d = bi(1 + choose("d", 2) as i64);
    let seq = QP::from((v, d)).to_sturm_sequence();
    let seq: Vec<Vec<BigInt>> = seq.into_iter().map(|p| p.split_out_divisor().0).collect();
    count_spec(&seq, &rs);
}

/// each element is minus the remainder of the two before it, up to a positive factor
fn sequence_spec(v: &[BigInt], primitive: &[ZP], rational: &[QP]) {
    check!(primitive.len() >= 1 && rational.len() >= 1, "nonempty");
    check!(is_zp(&primitive[0], v) && is_qp(&rational[0], v, &bi(1)), "starts with the polynomial");
    if v.len() == 1 {
        check!(primitive.len() == 1 && rational.len() == 1, "constant");
        return;
    }
    check!(is_qp(&rational[1], &vderiv(v), &bi(1)), "second is the derivative");
    let el = |p: &ZP| p.clone().split_out_divisor().0;
    let rl = |p: &QP| p.clone().split_out_divisor().0;
    for seq in [
        primitive.iter().map(el).collect::<Vec<_>>(),
        rational.iter().map(rl).collect::<Vec<_>>(),
    ] {
        check!(positive_multiple(&seq[1], &vderiv(v)), "second is a positive multiple of the derivative");
        for i in 2..seq.len() {
            let (a, b, c) = (&seq[i - 2], &seq[i - 1], &seq[i]);
            check!(!b.is_empty(), "no element after a zero one");
            check!(c.len() < b.len(), "degrees decrease");
            check!(positive_multiple(c, &minus_rem(a, b)), "minus the remainder");
        }
        let last = &seq[seq.len() - 1];
        if last.len() > 1 {
            // the sequence only ends early behind an element that divides the one before
            check!(minus_rem(&seq[seq.len() - 2], last).iter().all(|c| c.is_zero()), "complete");
        }
    }
    for p in &primitive[1..] {
        let g = el(p).iter().fold(bi(0), |g, c| Integer::gcd(&g, c));
        check!(p.is_zero() || g.is_one(), "primitive");
    }
}
/// a == k * b for some positive rational k (or both are zero)
fn positive_multiple(a: &[BigInt], b: &[BigInt]) -> bool {
    let (a, b) = (trim(a.to_vec()), trim(b.to_vec()));
    if a.len() != b.len() {
        return false;
    }
    if a.is_empty() {
        return true;
    }
    let (x, y) = (a.last().unwrap(), b.last().unwrap());
    x.is_negative() == y.is_negative() && (0..a.len()).all(|i| &a[i] * y == &b[i] * x)
}
/// minus the remainder of a by b, times a positive factor
fn minus_rem(a: &[BigInt], b: &[BigInt]) -> Vec<BigInt> {
    let mut r = a.to_vec();
    let l = b.last().unwrap().clone();
    let l2 = &l * &l;
    while r.len() >= b.len() {
        let t = r.last().unwrap().clone() * &l;
        let shift = r.len() - b.len();
        for x in r.iter_mut() {
            *x = &*x * &l2;
        }
        for (i, c) in b.iter().enumerate() {
            r[shift + i] = &r[shift + i] - &t * c;
        }
        r.pop();
    }
    r.iter().map(|x| -x).collect()
}

fn sequence_chosen() {
    let n = 1 + choose("n", if thorough() { 5 } else { 4 });
    let v = trim(chosen_vec("c", n, -2, 2));
    assume(!v.is_empty());
    let p = zp(&v);
    let q = QP::from((v.clone(), bi(1)));
    let s = p.to_primitive_sturm_sequence();
    let t = q.to_sturm_sequence();
    check!(p.into_primitive_sturm_sequence() == s && q.into_sturm_sequence() == t, "into_ forms agree");
    if v.len() > 2 && s.last().unwrap().is_zero() {
        cover("repeated root");
    }
    sequence_spec(&v, &s, &t);
}
/// longer ones, with gaps in the degrees, zero coefficients and repeated factors
fn sequence_long() {
    let shapes: [&[i64]; 12] = [
        &[-1, 0, 0, 0, 1],
        &[2, -3, 0, 0, 0, 1],
        &[1, 0, 0, 5, 0, 0, 2],
        &[-6, 0, 11, 0, -6, 0, 1],
        &[0, 0, 0, 1, 0, 0, -1],
        &[1, -4, 0, 4, 1, 0, 0, -2],
        &[3, 0, 0, 0, 0, 0, 0, -2],
        &[1, 1, 1, 1, 1, 1, 1, 1],
        &[0, 1, 0, -20, 0, 1],
        &[-4, 0, 9, 0, -6, 0, 1],
        &[7, 0, 0, 0, -1, 0, 0, 0, 1],
        &[1, 2, 3, 4, 5, 4, 3, 2, 1],
    ];
    let mut v: Vec<BigInt> = shapes[choose("shape", 12)].iter().map(|&x| bi(x)).collect();
    let at = [0, 1, v.len() - 2][choose("at", 3)];
    v[at] = bi(choose("s", if thorough() { 41 } else { 9 }) as i64 - if thorough() { 20 } else { 4 });
    if choose("square", 2) == 1 {
        assume(v.len() < 6);
        v = vmul(&v, &v);
    }
    let p = zp(&v);
    let q = QP::from((v.clone(), bi(1)));
    sequence_spec(&v, &p.to_primitive_sturm_sequence(), &q.to_sturm_sequence());
}
/// a*x^2 + b*x + c with any b, c over the rationals
fn sequence_quadratic() {
    let v = vec![any("c"), any("b"), bi([1, -1][choose("a", 2)])];
    let t = QP::from((v.clone(), bi(1))).to_sturm_sequence();
    check!(t.len() == 3, "three elements");
    let disc = &v[1] * &v[1] - bi(4) * &v[2] * &v[0];
    let (e, d) = t[2].clone().split_out_divisor();
    check!(d.is_positive(), "normal form");
    let s = if e.is_empty() { bi(0) } else { &e[0] * &v[2] };
    check!(e.len() <= 1 && s.is_zero() == disc.is_zero() && s.is_negative() == disc.is_negative(), "last element has the sign of the discriminant");
}
fn trivial() {
    check!(ZP::zero().to_primitive_sturm_sequence().is_empty(), "zero");
    check!(QP::zero().into_sturm_sequence().is_empty(), "zero");
    let c = any("c");
    assume(!c.is_zero());
    let p = zp(&[c.clone()]);
    check!(p.to_primitive_sturm_sequence() == vec![p.clone()], "constant");
    let b = any("b");
    let p = zp(&[b, c.clone()]);
    let s = p.to_primitive_sturm_sequence();
    check!(s.len() == 2 && s[0] == p, "linear");
    check!(s[1].len() == 1 && s[1].highest_power_coefficient().is_negative() == c.is_negative(), "linear derivative sign");
    check!(s[1].highest_power_coefficient().abs().is_one(), "linear derivative is a unit");
}

fn main() {
    main_(&[
        h("count_primitive", count_primitive),
        h("count_rational", count_rational),
        h("sequence_chosen", sequence_chosen).covers(&["repeated root"]),
        h("sequence_long", sequence_long),
        h("sequence_quadratic", sequence_quadratic),
        h("trivial", trivial),
    ]);
}
