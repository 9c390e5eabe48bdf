//! Two-dimensional arrays: indexing, parts, iteration from both ends.
//! encodes: array2d::Array2DBase::{from_array, size, index, index_mut, slice, slice_mut, do_slice, get_index, iter, iter_mut, to_owned, swap_elements, positions, data}, Positions::{next, next_back}, Iter, IterMut, IntoIter, IterOwnedData, Array2DSliceBound for pairs of bounds
//! outside: more than 3 (quick) / 4 (thorough) columns or rows; interleavings of the ends beyond 6 elements; printing
//! cfg: algebraics_verif
use algebraics::verif::Grid;
use std::ops::Bound;
use verif_harness::spec::*;
use verif_harness::*;

fn side() -> usize {
    if thorough() {
        5
    } else {
        4
    }
}
fn any_grid() -> (usize, usize, Vec<BigInt>, Grid) {
    let (x, y) = (choose("x", side()), choose("y", side()));
    let v = any_vec("v", x * y);
    let g = Grid::new(x, y, v.clone());
    (x, y, v, g)
}
/// a pair of bounds and the range it stands for; `None` where it does not fit the size
fn bounds(name: &str, size: usize) -> ((Bound<usize>, Bound<usize>), Option<(usize, usize)>) {
    let end = size + 2;
    let s = choose(&format!("{}s", name), 2 * end - 1);
    let e = choose(&format!("{}e", name), 2 * end - 1);
    let (sb, start) = if s == 0 {
        (Bound::Unbounded, 0)
    } else if s < end {
        (Bound::Included(s - 1), s - 1)
    } else {
        (Bound::Excluded(s - end), s - end + 1)
    };
    let (eb, stop) = if e == 0 {
        (Bound::Unbounded, size)
    } else if e < end {
        (Bound::Excluded(e - 1), e - 1)
    } else {
        (Bound::Included(e - end), e - end + 1)
    };
    ((sb, eb), if start <= stop && stop <= size { Some((start, stop)) } else { None })
}
fn part(v: &[BigInt], y: usize, r: (usize, usize), s: (usize, usize)) -> Vec<BigInt> {
    let mut out = vec![];
    for i in r.0..r.1 {
        for j in s.0..s.1 {
            out.push(v[i * y + j].clone());
        }
    }
    out
}

fn indexing() {
    let (x, y, mut v, mut g) = any_grid();
    check!(g.size() == (x, y) && g.data() == v, "size and data");
    for i in 0..x + 1 {
        for j in 0..y + 1 {
            if i < x && j < y {
                check!(g.get(i, j) == v[i * y + j], "column-major index");
            } else {
                check!(panics(|| g.get(i, j)), "outside the array");
            }
        }
    }
    check!(panics(|| Grid::new(x + 1, y + 1, v.clone())), "wrong amount of data is refused");
    let mut all = vec![];
    for i in 0..x {
        for j in 0..y {
            all.push((i, j));
        }
    }
    check!(g.positions() == all, "positions in order");
    if x > 0 && y > 0 {
        let (i, j) = (choose("i", x), choose("j", y));
        let w = any("w");
        g.set(i, j, w.clone());
        v[i * y + j] = w;
        check!(g.data() == v, "only that element changes");
        let (k, l) = (choose("k", x), choose("l", y));
        g.swap((i, j), (k, l));
        v.swap(i * y + j, k * y + l);
        check!(g.data() == v, "two elements change places");
        check!(panics(move || g.swap((0, 0), (x, 0))), "outside the array");
    }
}
fn parts() {
    let (x, y) = (choose("x", side()), choose("y", side()));
    let v: Vec<BigInt> = (0..x * y).map(|i| if i % 3 == 0 { any(&format!("v{}", i)) } else { bi(100 + i as i64) }).collect();
    let g = Grid::new(x, y, v.clone());
    let (xb, xr) = bounds("x", x);
    let (yb, yr) = bounds("y", y);
    match (xr, yr) {
        (Some(r), Some(s)) => {
            let want = part(&v, y, r, s);
            let o = g.part_to_owned(xb, yb);
            check!(o.size() == (r.1 - r.0, s.1 - s.0) && o.data() == want, "part");
            let all: Vec<Option<BigInt>> = want.iter().cloned().map(Some).collect();
            let n = want.len();
            check!(g.part(xb, yb, &vec![false; n]) == all, "front to back");
            let mut rev = all.clone();
            rev.reverse();
            check!(g.part(xb, yb, &vec![true; n]) == rev, "back to front");
            check!(g.part(xb, yb, &vec![false; n + 1])[n].is_none() && g.part(xb, yb, &vec![true; n + 1])[n].is_none(), "then nothing");
            // write through a part
            let mut m = Grid::new(x, y, v.clone());
            let mut k = 0;
            m.fill_part(xb, yb, &mut || {
                k += 1;
                bi(1000 + k)
            });
            let mut w = v.clone();
            let mut k = 0;
            for i in r.0..r.1 {
                for j in s.0..s.1 {
                    k += 1;
                    w[i * y + j] = bi(1000 + k);
                }
            }
            check!(m.data() == w, "exactly the part is written, in order");
            if n == 0 {
                cover("empty part")
            }
        }
        _ => {
            cover("refused");
            check!(panics(|| g.part_to_owned(xb, yb)), "a range that does not fit is refused");
        }
    }
}
/// every interleaving of the two ends
fn both_ends() {
    let (x, y) = ([1, 2, 3][choose("x", 3)], [1, 2, 3][choose("y", 3)]);
    let v = any_vec("v", x * y);
    let g = Grid::new(x, y, v.clone());
    let (rx, ry) = (choose("rx", x), choose("ry", y));
    let want = part(&v, y, (rx, x), (ry, y));
    let n = want.len();
    assume(n <= 6);
    let dirs: Vec<bool> = (0..n + 1).map(|i| choose(&format!("d{}", i), 2) == 1).collect();
    let (xb, yb) = ((Bound::Included(rx), Bound::Unbounded), (Bound::Included(ry), Bound::Unbounded));
    let mut m = Grid::new(x, y, v.clone());
    let got = match choose("kind", 3) {
        0 => g.part(xb, yb, &dirs),
        1 => m.part_mut(xb, yb, &dirs),
        _ => g.part_to_owned(xb, yb).into_elements(&dirs),
    };
    let (mut lo, mut hi) = (0, n);
    for (i, &back) in dirs.iter().enumerate() {
        let e = if lo == hi {
            None
        } else if back {
            hi -= 1;
            Some(want[hi].clone())
        } else {
            lo += 1;
            Some(want[lo - 1].clone())
        };
        check!(got[i] == e, "element {} of an interleaving", i);
    }
}
fn nested() {
    let (x, y) = (2 + choose("x", 2), 2 + choose("y", 2));
    let v = any_vec("v", x * y);
    let g = Grid::new(x, y, v.clone());
    let r = |n: &str, size: usize| -> (usize, usize) {
        let a = choose(&format!("{}a", n), size + 1);
        let b = a + choose(&format!("{}b", n), size + 1 - a);
        (a, b)
    };
    let (ox, oy) = (r("ox", x), r("oy", y));
    let (ix, iy) = (r("ix", ox.1 - ox.0), r("iy", oy.1 - oy.0));
    let b = |r: (usize, usize)| (Bound::Included(r.0), Bound::Excluded(r.1));
    let o = g.nested_part((b(ox), b(oy)), (b(ix), b(iy)));
    let want = part(&v, y, (ox.0 + ix.0, ox.0 + ix.1), (oy.0 + iy.0, oy.0 + iy.1));
    check!(o.size() == (ix.1 - ix.0, iy.1 - iy.0) && o.data() == want, "part of a part");
}

fn main() {
    main_(&[
        h("indexing", indexing),
        h("parts", parts).covers(&["empty part", "refused"]),
        h("both_ends", both_ends),
        h("nested", nested),
    ]);
}
