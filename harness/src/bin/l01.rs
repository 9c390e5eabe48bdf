//! Lattice bases: Gram-Schmidt orthogonalization and LLL reduction.
//! encodes: lattice::{inner_product, gram_schmidt, gram_schmidt_calculate_column, lll_reduce, lll_reduce_with_delta}, LLLState::{mu, calculate_column, invalidate_column}, Array2DBase::{slice, index, index_mut, swap_elements, iter}, for T = BigInt
//! outside: bases other than: two vectors of 2 entries in -3..3 (orthogonalization: -4..4), or in -1..1 with one entry in -14..14; two vectors of 3 entries, one of them in -1..1, the other from 117; 12 (quick) / 40 (thorough) families of three to five vectors of 3 to 6 entries with one entry in -9..9; linearly dependent vectors for the reduction (refused by a panic); deltas other than 3/4, 1/2, 99/100 and 1
//! cfg: algebraics_verif
use algebraics::verif::Grid;
use num_traits::{Signed, Zero};
use verif_harness::spec::*;
use verif_harness::*;

type Q = Ratio<BigInt>;
fn q(v: &BigInt) -> Q {
    Ratio::from(v.clone())
}
fn dot(a: &[Q], b: &[Q]) -> Q {
    a.iter().zip(b).fold(Q::zero(), |s, (x, y)| s + x * y)
}
/// columns of a basis
type Basis = Vec<Vec<BigInt>>;
fn grid(b: &Basis) -> Grid {
    Grid::new(b.len(), b[0].len(), b.iter().flatten().cloned().collect())
}
fn columns(g: &Grid) -> Basis {
    let (x, y) = g.size();
    (0..x).map(|i| (0..y).map(|j| g.get(i, j)).collect()).collect()
}
/// textbook orthogonalization: the orthogonal vectors and the coefficients
fn orthogonal(b: &Basis) -> (Vec<Vec<Q>>, Vec<Vec<Q>>) {
    let mut o: Vec<Vec<Q>> = vec![];
    let mut mu: Vec<Vec<Q>> = vec![];
    for v in b {
        let v: Vec<Q> = v.iter().map(q).collect();
        let mut w = v.clone();
        let mut m = vec![];
        for u in &o {
            let d = dot(u, u);
            let f = if d.is_zero() { Q::zero() } else { dot(&v, u) / d };
            w = w.iter().zip(u).map(|(a, c)| a - c * &f).collect();
            m.push(f);
        }
        o.push(w);
        mu.push(m);
    }
    (o, mu)
}
fn gram_schmidt_spec(b: &Basis) {
    let got = grid(b).gram_schmidt();
    let (o, _) = orthogonal(b);
    let want: Vec<Q> = o.into_iter().flatten().collect();
    check!(got == want, "each vector loses exactly its projections on the ones before");
    check!(got.iter().all(canonical), "reduced values");
}
/// the square of the volume of the lattice: the product of the squared lengths
fn volume2(o: &[Vec<Q>]) -> Q {
    o.iter().fold(q(&bi(1)), |p, v| p * dot(v, v))
}
fn lll_spec(b: &Basis, got: &Basis, delta: &Q) {
    check!(got.len() == b.len() && got.iter().all(|v| v.len() == b[0].len()), "same size");
    let (o, mu) = orthogonal(b);
    let (p, nu) = orthogonal(got);
    check!(volume2(&o) == volume2(&p), "the lattice keeps its volume");
    // every new vector is an integer combination of the old ones: back substitution
    for v in got {
        let mut w: Vec<Q> = v.iter().map(q).collect();
        for i in (0..b.len()).rev() {
            let c = dot(&w, &o[i]) / dot(&o[i], &o[i]);
            check!(c.is_integer(), "vectors stay in the lattice");
            w = w.iter().zip(&b[i]).map(|(x, y)| x - &c * q(y)).collect();
        }
        check!(w.iter().all(|x| x.is_zero()), "vectors stay in the lattice");
    }
    let half = Q::new(bi(1), bi(2));
    let _ = mu;
    for i in 0..got.len() {
        for j in 0..i {
            check!(nu[i][j].abs() <= half, "size-reduced");
        }
        if i > 0 {
            let m = &nu[i][i - 1];
            check!(dot(&p[i], &p[i]) >= (delta - m * m) * dot(&p[i - 1], &p[i - 1]), "Lovasz condition");
        }
    }
    if got != b {
        cover("changed")
    } else {
        cover("already reduced")
    }
}
fn reduce(b: &Basis) {
    let (o, _) = orthogonal(b);
    assume(!volume2(&o).is_zero());
    let d = choose("delta", 5);
    let (got, delta) = if d == 0 {
        (grid(b).lll_reduce(), Q::new(bi(3), bi(4)))
    } else {
        let delta = [(3, 4), (1, 2), (99, 100), (1, 1)][d - 1];
        let delta = Q::new(bi(delta.0), bi(delta.1));
        (grid(b).lll_reduce_with_delta(delta.clone()), delta)
    };
    lll_spec(b, &columns(&got), &delta);
}

fn planar(r: i64) -> Basis {
    vec![chosen_vec("a", 2, -r, r), chosen_vec("b", 2, -r, r)]
}
fn orthogonal_planar() {
    gram_schmidt_spec(&planar(4))
}
fn reduce_planar() {
    reduce(&planar(if thorough() { 4 } else { 3 }))
}
fn reduce_planar_far() {
    let mut b = planar(1);
    b[1][0] = int("s", -14, 14);
    reduce(&b)
}
fn spatial_pair() -> Basis {
    let a = chosen_vec("a", 3, -1, 1);
    let b = vec![bi(choose("s", 13) as i64 - 6), bi([0, 2, -1][choose("b1", 3)]), bi([1, 0, -2][choose("b2", 3)])];
    if choose("exchange", 2) == 0 {
        vec![a, b]
    } else {
        vec![b, a]
    }
}
fn orthogonal_pair() {
    gram_schmidt_spec(&spatial_pair())
}
fn reduce_pair() {
    reduce(&spatial_pair())
}
/// three to five vectors, one entry symbolic
fn bigger() -> Basis {
    let k = choose("family", if thorough() { 40 } else { 12 });
    let n = 3 + k % 3;
    let rows = n + k % 2;
    let mut seed = 12345u64 + 7919 * k as u64;
    let mut b: Basis = (0..n)
        .map(|_| {
            (0..rows)
                .map(|_| {
                    seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    bi((seed >> 33) as i64 % 9 - 4)
                })
                .collect()
        })
        .collect();
    b[k % n][(k / 2) % rows] = bi(choose("s", 19) as i64 - 9);
    b
}
fn orthogonal_bigger() {
    gram_schmidt_spec(&bigger())
}
fn reduce_bigger() {
    reduce(&bigger())
}
/// dependent and zero vectors: the projections on a zero vector are nothing
fn orthogonal_dependent() {
    let a = chosen_vec("a", 2, -2, 2);
    let k = int("k", -3, 3);
    let b = vscale(&a, &k);
    let c = vec![bi(1), bi(3)];
    let z = vec![bi(0), bi(0)];
    let basis = match choose("shape", 4) {
        0 => vec![a, b, c],
        1 => vec![a, c, b],
        2 => vec![z, a, b],
        _ => vec![a, z, c],
    };
    gram_schmidt_spec(&basis);
    cover("dependent");
}

fn main() {
    main_(&[
        h("orthogonal_planar", orthogonal_planar),
        h("orthogonal_pair", orthogonal_pair),
        h("orthogonal_bigger", orthogonal_bigger),
        h("orthogonal_dependent", orthogonal_dependent).covers(&["dependent"]),
        h("reduce_planar", reduce_planar).covers(&["changed", "already reduced"]),
        h("reduce_planar_far", reduce_planar_far).covers(&["changed", "already reduced"]),
        h("reduce_pair", reduce_pair).covers(&["changed"]),
        h("reduce_bigger", reduce_bigger).covers(&["changed"]),
    ]);
}
