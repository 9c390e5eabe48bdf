//! Canonical multivariate polynomials over Z: the normal form of symbolic integer terms.

use num_bigint_real::BigInt as R;
use num_integer::Integer;
use num_traits::{One, Signed, Zero};
use std::cmp::Ordering;
use std::collections::BTreeMap;

/// a monomial: sorted (variable, exponent > 0) pairs, ordered lexicographically
/// (an admissible monomial order: variable 0 is the most significant)
#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Mono(pub Vec<(u32, u32)>);

impl Ord for Mono {
    fn cmp(&self, o: &Self) -> Ordering {
        let (a, b) = (&self.0, &o.0);
        for i in 0.. {
            match (a.get(i), b.get(i)) {
                (None, None) => return Ordering::Equal,
                (None, Some(_)) => return Ordering::Less,
                (Some(_), None) => return Ordering::Greater,
                (Some(x), Some(y)) => {
                    if x.0 != y.0 {
                        return if x.0 < y.0 {
                            Ordering::Greater
                        } else {
                            Ordering::Less
                        };
                    }
                    if x.1 != y.1 {
                        return x.1.cmp(&y.1);
                    }
                }
            }
        }
        unreachable!()
    }
}

impl PartialOrd for Mono {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}

impl Mono {
    pub fn mul(&self, o: &Mono) -> Mono {
        let (a, b) = (&self.0, &o.0);
        let mut r = Vec::with_capacity(a.len() + b.len());
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < b.len() {
            match a[i].0.cmp(&b[j].0) {
                Ordering::Less => {
                    r.push(a[i]);
                    i += 1
                }
                Ordering::Greater => {
                    r.push(b[j]);
                    j += 1
                }
                Ordering::Equal => {
                    r.push((a[i].0, a[i].1 + b[j].1));
                    i += 1;
                    j += 1
                }
            }
        }
        r.extend_from_slice(&a[i..]);
        r.extend_from_slice(&b[j..]);
        Mono(r)
    }
    pub fn checked_div(&self, o: &Mono) -> Option<Mono> {
        let mut r = Vec::with_capacity(self.0.len());
        let mut j = 0;
        for &(v, e) in &self.0 {
            if j < o.0.len() && o.0[j].0 < v {
                return None;
            }
            if j < o.0.len() && o.0[j].0 == v {
                let oe = o.0[j].1;
                j += 1;
                if oe > e {
                    return None;
                }
                if e > oe {
                    r.push((v, e - oe));
                }
            } else {
                r.push((v, e));
            }
        }
        if j < o.0.len() {
            return None;
        }
        Some(Mono(r))
    }
    pub fn is_const(&self) -> bool {
        self.0.is_empty()
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Poly(pub BTreeMap<Mono, R>);

impl Poly {
    pub fn zero() -> Poly {
        Poly::default()
    }
    pub fn constant(c: R) -> Poly {
        let mut p = Poly::default();
        if !c.is_zero() {
            p.0.insert(Mono::default(), c);
        }
        p
    }
    pub fn var(v: u32) -> Poly {
        let mut p = Poly::default();
        p.0.insert(Mono(vec![(v, 1)]), R::one());
        p
    }
    pub fn as_const(&self) -> Option<R> {
        match self.0.len() {
            0 => Some(R::zero()),
            1 => {
                let (m, c) = self.0.iter().next().unwrap();
                if m.is_const() {
                    Some(c.clone())
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    pub fn add_scaled(&mut self, o: &Poly, k: &R) {
        for (m, c) in &o.0 {
            self.add_term(m.clone(), c * k);
        }
    }
    pub fn add_term(&mut self, m: Mono, c: R) {
        if c.is_zero() {
            return;
        }
        use std::collections::btree_map::Entry;
        match self.0.entry(m) {
            Entry::Vacant(e) => {
                e.insert(c);
            }
            Entry::Occupied(mut e) => {
                *e.get_mut() += c;
                if e.get().is_zero() {
                    e.remove();
                }
            }
        }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let (mut big, small) = if self.0.len() >= o.0.len() {
            (self.clone(), o)
        } else {
            (o.clone(), self)
        };
        for (m, c) in &small.0 {
            big.add_term(m.clone(), c.clone());
        }
        big
    }
    pub fn neg(&self) -> Poly {
        Poly(self.0.iter().map(|(m, c)| (m.clone(), -c)).collect())
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        let mut r = self.clone();
        for (m, c) in &o.0 {
            r.add_term(m.clone(), -c);
        }
        r
    }
    pub fn scale(&self, k: &R) -> Poly {
        if k.is_zero() {
            return Poly::zero();
        }
        Poly(self.0.iter().map(|(m, c)| (m.clone(), c * k)).collect())
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        let mut r = Poly::zero();
        for (ma, ca) in &self.0 {
            for (mb, cb) in &o.0 {
                r.add_term(ma.mul(mb), ca * cb);
            }
        }
        r
    }
    /// gcd of all coefficients
    pub fn content(&self) -> R {
        let mut g = R::zero();
        for c in self.0.values() {
            g = g.gcd(c);
            if g.is_one() {
                break;
            }
        }
        g
    }
    /// gcd of the coefficients of non-constant monomials
    pub fn nonconst_content(&self) -> R {
        let mut g = R::zero();
        for (m, c) in &self.0 {
            if m.is_const() {
                continue;
            }
            g = g.gcd(c);
            if g.is_one() {
                break;
            }
        }
        g
    }
    pub fn const_term(&self) -> R {
        self.0.get(&Mono::default()).cloned().unwrap_or_default()
    }
    pub fn lead(&self) -> Option<(&Mono, &R)> {
        self.0.iter().next_back()
    }
    pub fn div_exact_const(&self, k: &R) -> Option<Poly> {
        let mut r = BTreeMap::new();
        for (m, c) in &self.0 {
            let (q, rem) = c.div_rem(k);
            if !rem.is_zero() {
                return None;
            }
            r.insert(m.clone(), q);
        }
        Some(Poly(r))
    }
    /// exact multivariate division over Z
    pub fn checked_exact_div(&self, d: &Poly) -> Option<Poly> {
        let (dm, dc) = {
            let (m, c) = d.lead()?;
            (m.clone(), c.clone())
        };
        let mut rem = self.clone();
        let mut q = Poly::zero();
        let mut steps = 0usize;
        while let Some((rm, rc)) = rem.lead() {
            let m = rm.checked_div(&dm)?;
            let (c, r) = rc.div_rem(&dc);
            if !r.is_zero() {
                return None;
            }
            for (tm, tc) in &d.0 {
                rem.add_term(tm.mul(&m), -(tc * &c));
            }
            q.add_term(m, c);
            steps += 1;
            if steps > 20000 {
                return None;
            }
        }
        Some(q)
    }
    pub fn vars(&self) -> std::collections::BTreeSet<u32> {
        self.0
            .keys()
            .flat_map(|m| m.0.iter().map(|&(v, _)| v))
            .collect()
    }
    pub fn degree(&self) -> u32 {
        self.0
            .keys()
            .map(|m| m.0.iter().map(|x| x.1).sum())
            .max()
            .unwrap_or(0)
    }
    pub fn smt(&self, name: &dyn Fn(u32) -> String) -> String {
        fn num(c: &R) -> String {
            if c.is_negative() {
                format!("(- {})", -c)
            } else {
                c.to_string()
            }
        }
        if self.0.is_empty() {
            return "0".into();
        }
        let mut terms = Vec::new();
        for (m, c) in self.0.iter().rev() {
            if m.is_const() {
                terms.push(num(c));
                continue;
            }
            let mut f: Vec<String> = Vec::new();
            if !c.is_one() {
                f.push(num(c));
            }
            for &(v, e) in &m.0 {
                for _ in 0..e {
                    f.push(name(v));
                }
            }
            terms.push(if f.len() == 1 {
                f.pop().unwrap()
            } else {
                format!("(* {})", f.join(" "))
            });
        }
        if terms.len() == 1 {
            terms.pop().unwrap()
        } else {
            format!("(+ {})", terms.join(" "))
        }
    }
}
