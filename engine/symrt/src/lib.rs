//! Concolic symbolic-execution runtime for arbitrary-precision integers.
//!
//! `V` is an integer that is either concrete or symbolic. A symbolic value carries its
//! value under the current input assignment *and* a canonical polynomial over the
//! symbolic inputs (and over defined variables: quotients, roots, gcds). Every
//! observation of a symbolic value (comparison, zero test, conversion) records a branch
//! condition; the driver (`explore`) negates every recorded condition with an SMT solver
//! until no unexplored feasible side is left.

pub mod explore;
pub mod poly;
pub mod solver;

pub use num_bigint_real as real;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use poly::{Mono, Poly};
pub use real::BigInt as R;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::Arc;

// ---------------------------------------------------------------- tokens

thread_local! {
    static TOKENS: RefCell<Option<Vec<V>>> = const { RefCell::new(None) };
}

/// runs `f` with printing and hashing of integers replaced by numbered tokens; returns the
/// integers printed or hashed, in order, which stay symbolic
pub fn with_tokens<T>(f: impl FnOnce() -> T) -> (T, Vec<V>) {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            TOKENS.with(|t| t.borrow_mut().take());
        }
    }
    let _off = Off;
    TOKENS.with(|t| *t.borrow_mut() = Some(Vec::new()));
    let r = f();
    let v = TOKENS.with(|t| t.borrow_mut().take()).unwrap_or_default();
    (r, v)
}
/// the number of the token that stands for this value, where tokens are on
pub fn token(v: &V) -> Option<usize> {
    TOKENS.with(|t| {
        t.borrow_mut().as_mut().map(|t| {
            t.push(v.clone());
            t.len() - 1
        })
    })
}

// ---------------------------------------------------------------- terms

#[derive(Clone)]
pub enum V {
    C(R),
    S(Arc<SymVal>),
}

pub struct SymVal {
    pub val: R,
    pub poly: Poly,
    node: u32,
    epoch: u64,
}

enum Node {
    Var(u32),
    Const(R),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Neg(u32),
    Poly(Poly),
}

/// what a re-execution is predicted to answer at a branch
#[derive(Clone, Debug, PartialEq)]
pub enum Exp {
    Bool(bool),
    /// this answer of a many-way question
    Is(String),
    /// any answer of a many-way question but these
    NotIn(Vec<String>),
}

#[derive(Clone, Debug)]
pub enum Item {
    /// declaration of a defined (non-input) variable
    Decl(String),
    /// definitional constraint
    Def(String),
    Branch {
        smt: String,
        taken: bool,
        check: bool,
        /// Some(answers already explored) for a many-way question
        multi: Option<Vec<String>>,
    },
}

/// symbolic input declaration
#[derive(Clone, Debug)]
pub struct Input {
    pub name: String,
    pub smt: String,
    pub lo: Option<R>,
    pub hi: Option<R>,
    pub val: R,
}

struct VarInfo {
    name: String,
    lo: Option<R>,
    hi: Option<R>,
}

/// thrown (as a panic payload) to end a path
pub enum Stop {
    Assume,
    Engine(String),
    Fuel(String),
}

pub struct Ctx {
    epoch: u64,
    model: BTreeMap<String, R>,
    pub inputs: Vec<Input>,
    vars: Vec<VarInfo>,
    nodes: Vec<Node>,
    const_nodes: HashMap<R, u32>,
    pub items: Vec<Item>,
    pub branches: usize,
    decided: HashMap<(bool, Poly), bool>,
    div_cache: HashMap<(Poly, Poly), (V, V)>,
    root_cache: HashMap<(Poly, u32), V>,
    gcd_cache: HashMap<(Poly, Poly), V>,
    bits_cache: std::collections::HashSet<(Poly, u64)>,
    residues: HashMap<(u32, R), R>,
    exact_quot: HashMap<(Poly, Poly), V>,
    in_check: u32,
    pub obligations: Vec<String>,
    pub folded: usize,
    pub folded_checks: usize,
    pub concretizations: usize,
    pub covers: Vec<String>,
    pub ops: u64,
    pub fuel: u64,
    pub max_branches: usize,
    pub notes: Vec<String>,
    pub checks: usize,
    pub expected: Vec<Exp>,
    pub diverged: Option<String>,
    pub gcd_fork_limit: u64,
}

thread_local! {
    static CTX: RefCell<Option<Ctx>> = const { RefCell::new(None) };
}

fn with<T>(f: impl FnOnce(&mut Ctx) -> T) -> T {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let ctx = c
            .as_mut()
            .expect("symbolic value used outside of a symbolic path");
        f(ctx)
    })
}

pub fn active() -> bool {
    CTX.with(|c| c.borrow().is_some())
}

fn engine_error(msg: String) -> ! {
    std::panic::panic_any(Stop::Engine(msg))
}

impl Ctx {
    pub fn new(epoch: u64, model: BTreeMap<String, R>, expected: Vec<Exp>) -> Ctx {
        Ctx {
            epoch,
            model,
            inputs: vec![],
            vars: vec![],
            nodes: vec![],
            const_nodes: HashMap::new(),
            items: vec![],
            branches: 0,
            decided: HashMap::new(),
            div_cache: HashMap::new(),
            root_cache: HashMap::new(),
            gcd_cache: HashMap::new(),
            bits_cache: Default::default(),
            residues: HashMap::new(),
            exact_quot: HashMap::new(),
            in_check: 0,
            obligations: vec![],
            folded: 0,
            folded_checks: 0,
            concretizations: 0,
            covers: vec![],
            ops: 0,
            fuel: 3_000_000,
            max_branches: 4000,
            notes: vec![],
            checks: 0,
            expected,
            diverged: None,
            gcd_fork_limit: 64,
        }
    }
    fn node(&mut self, n: Node) -> u32 {
        self.nodes.push(n);
        (self.nodes.len() - 1) as u32
    }
    fn node_of(&mut self, v: &V) -> u32 {
        match v {
            V::S(s) => s.node,
            V::C(c) => {
                if let Some(&n) = self.const_nodes.get(c) {
                    n
                } else {
                    let n = self.node(Node::Const(c.clone()));
                    self.const_nodes.insert(c.clone(), n);
                    n
                }
            }
        }
    }
    fn name(&self, v: u32) -> String {
        self.vars[v as usize].name.clone()
    }
    fn smt_poly(&self, p: &Poly) -> String {
        p.smt(&|v| self.name(v))
    }
    fn mk(&mut self, val: R, poly: Poly, node: u32) -> V {
        match poly.as_const() {
            Some(c) => {
                debug_assert_eq!(c, val);
                V::C(c)
            }
            None => V::S(Arc::new(SymVal {
                val,
                poly,
                node,
                epoch: self.epoch,
            })),
        }
    }
    fn mk_poly(&mut self, val: R, poly: Poly) -> V {
        if poly.as_const().is_some() {
            return self.mk(val, poly, 0);
        }
        let node = self.node(Node::Poly(poly.clone()));
        self.mk(val, poly, node)
    }
    fn new_var(&mut self, name: String, val: R, lo: Option<R>, hi: Option<R>) -> V {
        let idx = self.vars.len() as u32;
        self.vars.push(VarInfo { name, lo, hi });
        let node = self.node(Node::Var(idx));
        V::S(Arc::new(SymVal {
            val,
            poly: Poly::var(idx),
            node,
            epoch: self.epoch,
        }))
    }
    fn fresh(&mut self, val: R, lo: Option<R>, hi: Option<R>) -> V {
        let name = format!("v{}", self.vars.len());
        self.items.push(Item::Decl(name.clone()));
        self.new_var(name, val, lo, hi)
    }
    fn tick(&mut self) {
        self.ops += 1;
        if self.ops > self.fuel {
            std::panic::panic_any(Stop::Fuel(format!("more than {} operations", self.fuel)));
        }
    }
    // ------------------------------------------------ ranges
    fn range(&self, p: &Poly) -> (Option<R>, Option<R>) {
        let mut lo = Some(R::zero());
        let mut hi = Some(R::zero());
        for (m, c) in &p.0 {
            let (mut ml, mut mh) = (Some(R::one()), Some(R::one()));
            for &(v, e) in &m.0 {
                let vi = &self.vars[v as usize];
                let (pl, ph) = pow_range(&vi.lo, &vi.hi, e);
                let r = mul_range(&ml, &mh, &pl, &ph);
                ml = r.0;
                mh = r.1;
            }
            if c.is_negative() {
                std::mem::swap(&mut ml, &mut mh);
            }
            lo = match (lo, ml) {
                (Some(a), Some(b)) => Some(a + b * c),
                _ => None,
            };
            hi = match (hi, mh) {
                (Some(a), Some(b)) => Some(a + b * c),
                _ => None,
            };
            if lo.is_none() && hi.is_none() {
                break;
            }
        }
        (lo, hi)
    }
    fn max_abs(&self, p: &Poly) -> Option<R> {
        let (lo, hi) = self.range(p);
        Some(lo?.abs().max(hi?.abs()))
    }
    // ------------------------------------------------ branching
    fn record_branch(&mut self, smt: String, taken: bool) {
        let i = self.branches;
        if let Some(e) = self.expected.get(i) {
            if *e != Exp::Bool(taken) && self.diverged.is_none() {
                self.diverged = Some(format!(
                    "branch {} was predicted {:?} but is {}: {}",
                    i, e, taken, smt
                ));
            }
        }
        self.push_item(smt, taken, None);
    }
    /// a question with many mutually exclusive answers; smt is the one that holds here
    fn record_multi(&mut self, smt: String) {
        let i = self.branches;
        let mut excluded = vec![];
        if let Some(e) = self.expected.get(i) {
            let ok = match e {
                Exp::Bool(_) => false,
                Exp::Is(f) => *f == smt,
                Exp::NotIn(fs) => {
                    excluded = fs.clone();
                    !fs.contains(&smt)
                }
            };
            if !ok && self.diverged.is_none() {
                self.diverged = Some(format!(
                    "branch {} was predicted {:?} but is {}",
                    i, self.expected[i], smt
                ));
            }
        }
        self.push_item(smt, true, Some(excluded));
    }
    fn push_item(&mut self, smt: String, taken: bool, multi: Option<Vec<String>>) {
        self.branches += 1;
        if self.branches > self.max_branches {
            std::panic::panic_any(Stop::Fuel(format!(
                "more than {} branches",
                self.max_branches
            )));
        }
        let check = self.in_check > 0;
        self.items.push(Item::Branch {
            smt,
            taken,
            check,
            multi,
        });
    }
    fn var_residue(&mut self, v: u32, m: &R) -> R {
        if let Some(r) = self.residues.get(&(v, m.clone())) {
            return r.clone();
        }
        // a residue modulo a multiple settles it
        for ((w, n), r) in &self.residues {
            if *w == v && n.is_multiple_of(m) {
                return r.mod_floor(m);
            }
        }
        let val = eval(self, &Poly::var(v));
        let r = val.mod_floor(m);
        if let (Some(l), Some(h)) = (&self.vars[v as usize].lo, &self.vars[v as usize].hi) {
            if l == h {
                return r;
            }
        }
        let f = format!("(= {} (mod {} {}))", r, self.name(v), m);
        self.record_multi(f);
        self.residues.insert((v, m.clone()), r.clone());
        r
    }
    /// poly == 0 (is_eq) or poly >= 0
    fn atom(&mut self, is_eq: bool, poly: &Poly, val: &R, dag: Option<(u32, u32)>) -> bool {
        self.tick();
        let concrete = if is_eq {
            val.is_zero()
        } else {
            !val.is_negative()
        };
        if let Some(c) = poly.as_const() {
            self.folded += 1;
            let t = if is_eq { c.is_zero() } else { !c.is_negative() };
            assert_eq!(t, concrete, "symrt: folded atom disagrees");
            if self.in_check > 0 {
                self.folded_checks += 1;
                if let Some((a, b)) = dag {
                    if let Some(o) = self.obligation(is_eq, t, a, b) {
                        self.obligations.push(o);
                    }
                }
            }
            return t;
        }
        let (key, flip) = canon_atom(is_eq, poly);
        let key = match key {
            Some(k) => k,
            None => {
                // decided by divisibility (an equation with no integer solution)
                if self.in_check > 0 {
                    let t = format!("(= {} 0)", self.smt_poly(poly));
                    self.record_branch(t, concrete);
                } else {
                    self.folded += 1;
                }
                return flip;
            }
        };
        if let Some(&t) = self.decided.get(&(is_eq, key.clone())) {
            self.folded += 1;
            return t != flip;
        }
        if self.in_check == 0 {
            let (lo, hi) = self.range(&key);
            let dec = if is_eq {
                if lo.as_ref().map_or(false, |l| l.is_positive())
                    || hi.as_ref().map_or(false, |h| h.is_negative())
                {
                    Some(false)
                } else {
                    None
                }
            } else if lo.as_ref().map_or(false, |l| !l.is_negative()) {
                Some(true)
            } else if hi.as_ref().map_or(false, |h| h.is_negative()) {
                Some(false)
            } else {
                None
            };
            if let Some(t) = dec {
                self.folded += 1;
                let t = t != flip;
                assert_eq!(t, concrete, "symrt: range-folded atom disagrees");
                return t;
            }
        }
        let smt = format!(
            "({} {} 0)",
            if is_eq { "=" } else { ">=" },
            self.smt_poly(&key)
        );
        let key_truth = concrete != flip;
        self.record_branch(smt, key_truth);
        self.learn(is_eq, &key, key_truth);
        self.decided.insert((is_eq, key), key_truth);
        concrete
    }
    /// tighten the range of a variable from a decided single-variable linear atom
    fn learn(&mut self, is_eq: bool, p: &Poly, truth: bool) {
        let vs = p.vars();
        if vs.len() != 1 || p.degree() != 1 {
            return;
        }
        let v = *vs.iter().next().unwrap();
        let a = p.0[&Mono(vec![(v, 1)])].clone();
        let c = p.const_term();
        let vi = &mut self.vars[v as usize];
        let set_lo = |vi: &mut VarInfo, x: R| {
            if vi.lo.as_ref().map_or(true, |l| *l < x) {
                vi.lo = Some(x)
            }
        };
        let set_hi = |vi: &mut VarInfo, x: R| {
            if vi.hi.as_ref().map_or(true, |h| *h > x) {
                vi.hi = Some(x)
            }
        };
        if is_eq {
            if truth {
                let x = -c / a;
                set_lo(vi, x.clone());
                set_hi(vi, x);
            } else if a.is_one() || (-&a).is_one() {
                let x = -c / a;
                if vi.lo.as_ref() == Some(&x) {
                    vi.lo = Some(&x + 1);
                }
                if vi.hi.as_ref() == Some(&x) {
                    vi.hi = Some(&x - 1);
                }
            }
        } else {
            // a*x + c >= 0 (or < 0, i.e. -a*x - c - 1 >= 0)
            let (a, c) = if truth { (a, c) } else { (-a, -c - 1) };
            if a.is_positive() {
                // x >= ceil(-c / a)
                let x = -(c.div_floor(&a));
                set_lo(vi, x);
            } else {
                // x <= floor(c / -a)
                let x = c.div_floor(&-a);
                set_hi(vi, x);
            }
        }
    }
    fn obligation(&mut self, is_eq: bool, truth: bool, a: u32, b: u32) -> Option<String> {
        // (a rel b) printed from the operation DAG, not from the normal form
        let mut order: Vec<u32> = vec![];
        let mut seen: HashMap<u32, ()> = HashMap::new();
        let mut stack = vec![(a, false), (b, false)];
        while let Some((n, done)) = stack.pop() {
            if done {
                order.push(n);
                continue;
            }
            if seen.insert(n, ()).is_some() {
                continue;
            }
            stack.push((n, true));
            match &self.nodes[n as usize] {
                Node::Add(x, y) | Node::Sub(x, y) | Node::Mul(x, y) => {
                    stack.push((*x, false));
                    stack.push((*y, false));
                }
                Node::Neg(x) => stack.push((*x, false)),
                _ => {}
            }
            if order.len() + stack.len() > 400 {
                return None;
            }
        }
        let mut defs = String::new();
        let mut vars = std::collections::BTreeSet::new();
        for n in &order {
            let body = match &self.nodes[*n as usize] {
                Node::Var(v) => {
                    vars.insert(*v);
                    self.name(*v)
                }
                Node::Const(c) => {
                    if c.is_negative() {
                        format!("(- {})", -c)
                    } else {
                        c.to_string()
                    }
                }
                Node::Add(x, y) => format!("(+ d{} d{})", x, y),
                Node::Sub(x, y) => format!("(- d{} d{})", x, y),
                Node::Mul(x, y) => format!("(* d{} d{})", x, y),
                Node::Neg(x) => format!("(- d{})", x),
                Node::Poly(p) => {
                    vars.extend(p.vars());
                    self.smt_poly(p)
                }
            };
            defs.push_str(&format!("(define-fun d{} () Int {})\n", n, body));
        }
        let mut s = String::new();
        for v in vars {
            s.push_str(&format!("(declare-const {} Int)\n", self.name(v)));
        }
        s.push_str(&defs);
        let rel = format!("({} d{} d{})", if is_eq { "=" } else { ">=" }, a, b);
        s.push_str(&if truth {
            format!("(assert (not {}))\n", rel)
        } else {
            format!("(assert {})\n", rel)
        });
        Some(s)
    }
}

fn mul_range(
    al: &Option<R>,
    ah: &Option<R>,
    bl: &Option<R>,
    bh: &Option<R>,
) -> (Option<R>, Option<R>) {
    if let (Some(al), Some(ah), Some(bl), Some(bh)) = (al, ah, bl, bh) {
        let c = [al * bl, al * bh, ah * bl, ah * bh];
        return (c.iter().min().cloned(), c.iter().max().cloned());
    }
    // half-bounded cases: both factors non-negative
    let nonneg = |l: &Option<R>| l.as_ref().map_or(false, |l| !l.is_negative());
    let nonpos = |h: &Option<R>| h.as_ref().map_or(false, |h| !h.is_positive());
    if nonneg(al) && nonneg(bl) {
        let lo = al.as_ref().unwrap() * bl.as_ref().unwrap();
        return (Some(lo), None);
    }
    if nonpos(ah) && nonpos(bh) {
        let lo = ah.as_ref().unwrap() * bh.as_ref().unwrap();
        return (Some(lo), None);
    }
    if nonneg(al) && nonpos(bh) {
        return (None, Some(al.as_ref().unwrap() * bh.as_ref().unwrap()));
    }
    if nonpos(ah) && nonneg(bl) {
        return (None, Some(ah.as_ref().unwrap() * bl.as_ref().unwrap()));
    }
    (None, None)
}

fn pow_range(l: &Option<R>, h: &Option<R>, e: u32) -> (Option<R>, Option<R>) {
    if e % 2 == 1 {
        return (l.as_ref().map(|x| x.pow(e)), h.as_ref().map(|x| x.pow(e)));
    }
    let hi = match (l, h) {
        (Some(l), Some(h)) => Some(l.pow(e).max(h.pow(e))),
        _ => None,
    };
    let lo = if l.as_ref().map_or(false, |l| l.is_positive()) {
        l.as_ref().unwrap().pow(e)
    } else if h.as_ref().map_or(false, |h| h.is_negative()) {
        h.as_ref().unwrap().pow(e)
    } else {
        R::zero()
    };
    (Some(lo), hi)
}

/// canonical form of an atom: Some(key) with "atom == (key atom) xor flip", or None when
/// an equation is unsatisfiable by divisibility (then `flip` holds its truth value)
fn canon_atom(is_eq: bool, p: &Poly) -> (Option<Poly>, bool) {
    let g = p.nonconst_content();
    let c = p.const_term();
    let lead_neg = p.lead().map_or(false, |(_, c)| c.is_negative());
    if is_eq {
        if !(&c % &g).is_zero() {
            return (None, false);
        }
        let k = if lead_neg { -g } else { g };
        return (Some(p.div_exact_const(&k).unwrap()), false);
    }
    // p >= 0; with a negative leading coefficient: not(-p - 1 >= 0)
    let (q, flip) = if lead_neg {
        let mut q = p.neg();
        q.add_term(Mono::default(), -R::one());
        (q, true)
    } else {
        (p.clone(), false)
    };
    // tighten: g*q' + c >= 0  <=>  q' + floor(c/g) >= 0
    let mut r = Poly::zero();
    for (m, c) in &q.0 {
        if m.is_const() {
            r.add_term(m.clone(), c.div_floor(&g));
        } else {
            r.add_term(m.clone(), c / &g);
        }
    }
    (Some(r), flip)
}

// ---------------------------------------------------------------- V operations

impl V {
    pub fn c<T: Into<R>>(v: T) -> V {
        V::C(v.into())
    }
    pub fn is_sym(&self) -> bool {
        matches!(self, V::S(_))
    }
    /// value under the current assignment (no constraint is recorded)
    pub fn val(&self) -> &R {
        match self {
            V::C(c) => c,
            V::S(s) => {
                debug_assert!(s.val.bits() < 1 << 40);
                &s.val
            }
        }
    }
    pub fn poly(&self) -> Poly {
        match self {
            V::C(c) => Poly::constant(c.clone()),
            V::S(s) => {
                with(|c| {
                    if c.epoch != s.epoch {
                        engine_error("symbolic value leaked from another path".into())
                    }
                });
                s.poly.clone()
            }
        }
    }
    pub fn add(&self, o: &V) -> V {
        match (self, o) {
            (V::C(a), V::C(b)) => V::C(a + b),
            _ => {
                let (pa, pb) = (self.poly(), o.poly());
                let val = self.val() + o.val();
                with(|c| {
                    c.tick();
                    let (x, y) = (c.node_of(self), c.node_of(o));
                    let n = c.node(Node::Add(x, y));
                    c.mk(val, pa.add(&pb), n)
                })
            }
        }
    }
    pub fn sub(&self, o: &V) -> V {
        match (self, o) {
            (V::C(a), V::C(b)) => V::C(a - b),
            _ => {
                let (pa, pb) = (self.poly(), o.poly());
                let val = self.val() - o.val();
                with(|c| {
                    c.tick();
                    let (x, y) = (c.node_of(self), c.node_of(o));
                    let n = c.node(Node::Sub(x, y));
                    c.mk(val, pa.sub(&pb), n)
                })
            }
        }
    }
    pub fn mul(&self, o: &V) -> V {
        match (self, o) {
            (V::C(a), V::C(b)) => V::C(a * b),
            _ => {
                let (pa, pb) = (self.poly(), o.poly());
                let val = self.val() * o.val();
                if pa.0.len() * pb.0.len() > 40_000 {
                    engine_error("polynomial terms grew out of bounds".into());
                }
                with(|c| {
                    c.tick();
                    let (x, y) = (c.node_of(self), c.node_of(o));
                    let n = c.node(Node::Mul(x, y));
                    c.mk(val, pa.mul(&pb), n)
                })
            }
        }
    }
    pub fn neg(&self) -> V {
        match self {
            V::C(a) => V::C(-a),
            V::S(_) => {
                let p = self.poly();
                let val = -self.val();
                with(|c| {
                    c.tick();
                    let x = c.node_of(self);
                    let n = c.node(Node::Neg(x));
                    c.mk(val, p.neg(), n)
                })
            }
        }
    }
    pub fn pow(&self, e: u32) -> V {
        match self {
            V::C(a) => V::C(a.pow(e)),
            _ => {
                let mut r = V::C(R::one());
                for _ in 0..e {
                    r = r.mul(self);
                }
                r
            }
        }
    }
    pub fn shl(&self, k: u64) -> V {
        match self {
            V::C(a) => V::C(a << k),
            _ => self.mul(&V::C(R::one() << k)),
        }
    }
    /// arithmetic shift right (rounds toward negative infinity)
    pub fn shr(&self, k: u64) -> V {
        match self {
            V::C(a) => V::C(a >> k),
            _ if k >= 1 << 20 => {
                if self.cmp(&V::c(0)) == std::cmp::Ordering::Less {
                    V::c(-1)
                } else {
                    V::c(0)
                }
            }
            _ => self.div_mod_floor(&V::C(R::one() << k)).0,
        }
    }
    // ---------------- observations
    fn rel(&self, o: &V, is_eq: bool) -> bool {
        // self == o, or self >= o
        match (self, o) {
            (V::C(a), V::C(b)) => {
                if is_eq {
                    a == b
                } else {
                    a >= b
                }
            }
            _ => {
                let d = self.poly().sub(&o.poly());
                let val = self.val() - o.val();
                with(|c| {
                    let x = c.node_of(self);
                    let y = c.node_of(o);
                    c.atom(is_eq, &d, &val, Some((x, y)))
                })
            }
        }
    }
    pub fn eq(&self, o: &V) -> bool {
        self.rel(o, true)
    }
    pub fn ge(&self, o: &V) -> bool {
        self.rel(o, false)
    }
    pub fn le(&self, o: &V) -> bool {
        o.rel(self, false)
    }
    pub fn lt(&self, o: &V) -> bool {
        !self.rel(o, false)
    }
    pub fn gt(&self, o: &V) -> bool {
        !o.rel(self, false)
    }
    pub fn cmp(&self, o: &V) -> Ordering {
        if let (V::C(a), V::C(b)) = (self, o) {
            return a.cmp(b);
        }
        if self.lt(o) {
            Ordering::Less
        } else if self.gt(o) {
            Ordering::Greater
        } else {
            Ordering::Equal
        }
    }
    pub fn is_zero(&self) -> bool {
        match self {
            V::C(a) => a.is_zero(),
            _ => self.eq(&V::C(R::zero())),
        }
    }
    pub fn is_one(&self) -> bool {
        match self {
            V::C(a) => a.is_one(),
            _ => self.eq(&V::C(R::one())),
        }
    }
    pub fn is_negative(&self) -> bool {
        match self {
            V::C(a) => a.is_negative(),
            _ => self.lt(&V::C(R::zero())),
        }
    }
    pub fn is_positive(&self) -> bool {
        match self {
            V::C(a) => a.is_positive(),
            _ => self.gt(&V::C(R::zero())),
        }
    }
    /// -1, 0, 1
    pub fn signum(&self) -> i32 {
        match self {
            V::C(a) => a.signum().to_i32().unwrap(),
            _ => match self.cmp(&V::C(R::zero())) {
                Ordering::Less => -1,
                Ordering::Equal => 0,
                Ordering::Greater => 1,
            },
        }
    }
    pub fn abs(&self) -> V {
        if self.is_negative() {
            self.neg()
        } else {
            self.clone()
        }
    }
    /// forces the value to be concrete (recorded as a branch: other values are explored)
    pub fn concretize(&self) -> R {
        match self {
            V::C(a) => a.clone(),
            V::S(s) => {
                let v = s.val.clone();
                let p = self.poly();
                with(|c| {
                    if let (Some(l), Some(h)) = c.range(&p) {
                        if l == h {
                            return;
                        }
                    }
                    let (key, _) = canon_atom(true, &p.sub(&Poly::constant(v.clone())));
                    let key = key.expect("symrt: concretize");
                    if c.decided.get(&(true, key.clone())) == Some(&true) {
                        return;
                    }
                    let smt = format!("(= {} 0)", c.smt_poly(&key));
                    c.record_multi(smt);
                    c.learn(true, &key, true);
                    c.decided.insert((true, key), true);
                });
                with(|c| c.concretizations += 1);
                v
            }
        }
    }
    // ---------------- division
    pub fn div_mod_floor(&self, d: &V) -> (V, V) {
        if let (V::C(a), V::C(b)) = (self, d) {
            let (q, r) = a.div_mod_floor(b);
            return (V::C(q), V::C(r));
        }
        if d.is_zero() {
            panic!("attempt to divide by zero");
        }
        if let Some(r) = self.try_exact(d) {
            return (r, V::C(R::zero()));
        }
        match d {
            V::C(b) => {
                if b.is_negative() {
                    let (q, r) = self.neg().div_mod_floor(&d.neg());
                    return (q, r.neg());
                }
                // split off the part of the polynomial divisible by b
                let p = self.poly();
                let mut whole = Poly::zero();
                let mut rest = Poly::zero();
                for (m, c) in &p.0 {
                    let (q, r) = c.div_mod_floor(b);
                    whole.add_term(m.clone(), q);
                    rest.add_term(m.clone(), r);
                }
                let (q, r) = self.val().div_mod_floor(b);
                if let Some(rc) = rest.as_const() {
                    debug_assert_eq!(rc, r);
                    return with(|c| (c.mk_poly(q, whole), V::C(rc)));
                }
                let key = (rest.clone(), Poly::constant(b.clone()));
                let rest_val = {
                    // value of the rest polynomial = val - b * whole(val)
                    let whole_val = with(|c| eval(c, &whole));
                    self.val() - b * whole_val
                };
                let cached = with(|c| c.div_cache.get(&key).cloned());
                let (rq, rr) = match cached {
                    Some(x) => x,
                    None => with(|c| {
                        c.tick();
                        let (lo, hi) = c.range(&rest);
                        let qv = rest_val.div_floor(b);
                        let s = c.smt_poly(&rest);
                        let q = c.fresh(
                            qv.clone(),
                            lo.map(|x| x.div_floor(b)),
                            hi.map(|x| x.div_floor(b)),
                        );
                        let qp = match &q {
                            V::S(s) => s.poly.clone(),
                            _ => unreachable!(),
                        };
                        let name = c.smt_poly(&qp);
                        c.items
                            .push(Item::Def(format!("(= {} (div {} {}))", name, s, b)));
                        set_eval(c, &q);
                        let mut rp = rest.clone();
                        rp.add_scaled(&qp, &-b);
                        let rv = &rest_val - b * &qv;
                        let r = c.mk_poly(rv, rp);
                        c.div_cache.insert(key, (q.clone(), r.clone()));
                        (q, r)
                    }),
                };
                let qq = with(|c| {
                    let mut qp = whole;
                    if let V::S(s) = &rq {
                        qp = qp.add(&s.poly);
                    }
                    c.mk_poly(q, qp)
                });
                (qq, rr)
            }
            V::S(_) => {
                if d.is_negative() {
                    let (q, r) = self.neg().div_mod_floor(&d.neg());
                    return (q, r.neg());
                }
                let key = (self.poly(), d.poly());
                if let Some(x) = with(|c| c.div_cache.get(&key).cloned()) {
                    return x;
                }
                let (q, r) = self.val().div_mod_floor(d.val());
                with(|c| {
                    c.tick();
                    let qr = match (c.range(&key.0), c.range(&key.1)) {
                        ((Some(l), Some(h)), (dl, _)) => {
                            let m = dl.filter(|x| x.is_positive()).unwrap_or_else(R::one);
                            (
                                Some(if l.is_negative() { l.div_floor(&m) } else { R::zero() }),
                                Some(if h.is_negative() { -R::one() } else { h.div_floor(&m) }),
                            )
                        }
                        _ => (None, None),
                    };
                    let qv = c.fresh(q, qr.0, qr.1);
                    set_eval(c, &qv);
                    let qp = match &qv {
                        V::S(s) => s.poly.clone(),
                        _ => unreachable!(),
                    };
                    let rp = key.0.sub(&key.1.mul(&qp));
                    let rs = c.smt_poly(&rp);
                    let ds = c.smt_poly(&key.1);
                    c.items
                        .push(Item::Def(format!("(and (<= 0 {}) (< {} {}))", rs, rs, ds)));
                    let rv = c.mk_poly(r, rp);
                    c.div_cache.insert(key, (qv.clone(), rv.clone()));
                    (qv, rv)
                })
            }
        }
    }
    /// exact quotient when it is evident from the normal forms
    fn try_exact(&self, d: &V) -> Option<V> {
        if let V::C(a) = self {
            if a.is_zero() {
                return Some(V::C(R::zero()));
            }
        }
        if let V::C(b) = d {
            if b.is_one() {
                return Some(self.clone());
            }
        }
        let p = self.poly();
        let q = match d {
            V::C(b) => p.div_exact_const(b),
            V::S(_) => {
                let dp = d.poly();
                if let Some(v) = with(|c| c.exact_quot.get(&(p.clone(), dp.clone())).cloned()) {
                    return Some(v);
                }
                if let Some(v) = with(|c| c.exact_quot.get(&(p.neg(), dp.clone())).cloned()) {
                    return Some(v.neg());
                }
                p.checked_exact_div(&dp)
            }
        }?;
        let val = self.val() / d.val();
        Some(with(|c| {
            c.tick();
            c.mk_poly(val, q)
        }))
    }
    /// truncated division
    pub fn div_rem(&self, d: &V) -> (V, V) {
        if let (V::C(a), V::C(b)) = (self, d) {
            let (q, r) = a.div_rem(b);
            return (V::C(q), V::C(r));
        }
        if d.is_zero() {
            panic!("attempt to divide by zero");
        }
        if let Some(r) = self.try_exact(d) {
            return (r, V::C(R::zero()));
        }
        if self.is_negative() {
            let (q, r) = self.neg().div_rem(d);
            return (q.neg(), r.neg());
        }
        if d.is_negative() {
            let (q, r) = self.div_rem(&d.neg());
            return (q.neg(), r);
        }
        self.div_mod_floor(d)
    }
    pub fn is_multiple_of(&self, d: &V) -> bool {
        if d.is_zero() {
            return self.is_zero();
        }
        self.div_mod_floor(d).1.is_zero()
    }
    // ---------------- gcd
    pub fn gcd(&self, o: &V) -> V {
        if let (V::C(a), V::C(b)) = (self, o) {
            return V::C(a.gcd(b));
        }
        if let V::C(a) = self {
            return o.gcd_const(a);
        }
        if let V::C(b) = o {
            return self.gcd_const(b);
        }
        let (pa, pb) = (self.poly(), o.poly());
        if pa == pb || pa == pb.neg() {
            return self.abs();
        }
        if self.is_zero() {
            return o.abs();
        }
        if o.is_zero() {
            return self.abs();
        }
        let key = if format!("{:?}", pa) <= format!("{:?}", pb) {
            (pa.clone(), pb.clone())
        } else {
            (pb.clone(), pa.clone())
        };
        if let Some(v) = with(|c| c.gcd_cache.get(&key).cloned()) {
            return v;
        }
        if pa.checked_exact_div(&pb).is_some() {
            return o.abs();
        }
        if pb.checked_exact_div(&pa).is_some() {
            return self.abs();
        }
        let bound = with(|c| match (c.max_abs(&pa), c.max_abs(&pb)) {
            (Some(a), Some(b)) => Some(a.min(b)),
            (Some(a), None) => Some(a),
            (None, b) => b,
        });
        let limit = with(|c| c.gcd_fork_limit);
        let g = self.val().gcd(o.val());
        let result = match bound {
            Some(b) if b <= R::from(limit) => {
                let b = b.to_u64().unwrap();
                let gv = g.to_u64().unwrap();
                let mut conds = vec![
                    self.mod_zero_formula(&g),
                    o.mod_zero_formula(&g),
                ];
                for p in primes_upto(b / gv) {
                    let m = R::from(gv * p);
                    let (x, y) = (self.mod_zero_formula(&m), o.mod_zero_formula(&m));
                    conds.push(format!("(not (and {} {}))", x, y));
                }
                with(|c| c.record_multi(format!("(and {})", conds.join(" "))));
                V::C(g)
            }
            _ => with(|c| {
                let e = self.val().extended_gcd(o.val());
                let (mut x, mut y) = (e.x, e.y);
                if e.gcd.is_negative() {
                    x = -x;
                    y = -y;
                }
                let gv = c.fresh(g.clone(), Some(R::one()), bound.clone());
                let (ra, rb) = (c.range(&pa), c.range(&pb));
                let wide = |r: (Option<R>, Option<R>)| match r {
                    (Some(l), Some(h)) => (
                        Some(l.min(R::zero())),
                        Some(h.max(R::zero())),
                    ),
                    _ => (None, None),
                };
                let (ra, rb) = (wide(ra), wide(rb));
                let av = c.fresh(self.val() / &g, ra.0, ra.1);
                let bv = c.fresh(o.val() / &g, rb.0, rb.1);
                let xv = c.fresh(x, None, None);
                let yv = c.fresh(y, None, None);
                for v in [&gv, &av, &bv, &xv, &yv] {
                    set_eval(c, v);
                }
                let n = |c: &Ctx, v: &V| match v {
                    V::S(s) => c.smt_poly(&s.poly),
                    _ => unreachable!(),
                };
                let (gs, as_, bs, xs, ys) =
                    (n(c, &gv), n(c, &av), n(c, &bv), n(c, &xv), n(c, &yv));
                let d = format!(
                    "(and (>= {g} 1) (= {pa} (* {g} {a})) (= {pb} (* {g} {b})) (= 1 (+ (* {x} {a}) (* {y} {b}))))",
                    g = gs, a = as_, b = bs, x = xs, y = ys,
                    pa = c.smt_poly(&pa), pb = c.smt_poly(&pb)
                );
                c.items.push(Item::Def(d));
                let gp = match &gv {
                    V::S(s) => s.poly.clone(),
                    _ => unreachable!(),
                };
                c.exact_quot.insert((pa.clone(), gp.clone()), av);
                c.exact_quot.insert((pb.clone(), gp), bv);
                gv
            }),
        };
        with(|c| c.gcd_cache.insert(key, result.clone()));
        result
    }
    fn gcd_const(&self, k: &R) -> V {
        if k.is_zero() {
            return self.abs();
        }
        let k = k.abs();
        if k.is_one() {
            return V::C(k);
        }
        if let Some(r) = self.residue(&k) {
            return V::C(r.gcd(&k));
        }
        let d = self.val().gcd(&k);
        let rest = &k / &d;
        let ps = match prime_factors(&rest) {
            Some(p) => p,
            None => {
                with(|c| c.notes.push("gcd with a huge constant: concretized".into()));
                let v = self.concretize();
                return V::C(v.gcd(&k));
            }
        };
        let mut conds = vec![];
        if !d.is_one() {
            conds.push(self.mod_zero_formula(&d));
        }
        for p in ps {
            conds.push(format!("(not {})", self.mod_zero_formula(&(&d * p))));
        }
        let f = if conds.len() == 1 {
            conds.pop().unwrap()
        } else {
            format!("(and {})", conds.join(" "))
        };
        with(|c| {
            // the same question may have been settled on this path already
            let key = (Poly::constant(k.clone()), self.poly_unchecked());
            if let Some(v) = c.gcd_cache.get(&key) {
                return v.clone();
            }
            c.record_multi(f);
            c.gcd_cache.insert(key, V::C(d.clone()));
            V::C(d)
        })
    }
    /// self mod m for a small m and a non-linear self: the variables' residues are asked
    /// for one by one, which leaves only linear questions for the solver
    fn residue(&self, m: &R) -> Option<R> {
        let p = match self {
            V::C(c) => return Some(c.mod_floor(m)),
            V::S(_) => self.poly(),
        };
        if p.degree() < 2 || *m > R::from(64) {
            return None;
        }
        with(|c| {
            let mut total = R::zero();
            for (mo, k) in &p.0 {
                let mut t = k.mod_floor(m);
                if t.is_zero() {
                    continue;
                }
                for (v, e) in &mo.0 {
                    let r = c.var_residue(*v, m);
                    for _ in 0..*e {
                        t = (&t * &r).mod_floor(m);
                    }
                }
                total = (total + t).mod_floor(m);
            }
            debug_assert_eq!(total, self.val().mod_floor(m));
            Some(total)
        })
    }
    fn poly_unchecked(&self) -> Poly {
        match self {
            V::C(c) => Poly::constant(c.clone()),
            V::S(s) => s.poly.clone(),
        }
    }
    fn mod_zero_formula(&self, m: &R) -> String {
        if m.is_one() {
            return "true".into();
        }
        let p = self.poly();
        // drop the multiples of m
        let mut rest = Poly::zero();
        for (mo, c) in &p.0 {
            rest.add_term(mo.clone(), c.mod_floor(m));
        }
        with(|c| format!("(= 0 (mod {} {}))", c.smt_poly(&rest), m))
    }
    // ---------------- roots
    pub fn nth_root(&self, n: u32) -> V {
        match self {
            V::C(a) => V::C(a.nth_root(n)),
            V::S(_) => {
                assert!(n > 0, "root degree n must be at least 1");
                if n == 1 {
                    return self.clone();
                }
                if self.is_negative() {
                    assert!(n % 2 == 1, "root of degree {} is imaginary", n);
                    return self.neg().nth_root(n).neg();
                }
                let p = self.poly();
                let key = (p.clone(), n);
                if let Some(v) = with(|c| c.root_cache.get(&key).cloned()) {
                    return v;
                }
                let val = self.val().nth_root(n);
                with(|c| {
                    c.tick();
                    let (lo, hi) = c.range(&p);
                    let lo = lo.filter(|x| x.is_positive()).unwrap_or_default();
                    let s = c.fresh(val, Some(lo.nth_root(n)), hi.map(|x| x.nth_root(n)));
                    set_eval(c, &s);
                    let sp = match &s {
                        V::S(s) => s.poly.clone(),
                        _ => unreachable!(),
                    };
                    let name = c.smt_poly(&sp);
                    let ps = c.smt_poly(&p);
                    let low = vec![name.clone(); n as usize].join(" ");
                    let up = vec![format!("(+ 1 {})", name); n as usize].join(" ");
                    c.items.push(Item::Def(format!(
                        "(and (>= {} 0) (<= (* {}) {}) (< {} (* {})))",
                        name, low, ps, ps, up
                    )));
                    c.root_cache.insert(key, s.clone());
                    s
                })
            }
        }
    }
    /// number of bits of |self|
    pub fn bits(&self) -> u64 {
        match self {
            V::C(a) => a.bits(),
            V::S(_) => {
                let a = self.abs();
                if a.is_zero() {
                    return 0;
                }
                let k = a.val().bits();
                // a many-way question: which power of two is it between
                let lo = R::one() << (k - 1);
                let hi = R::one() << k;
                let p = a.poly();
                with(|c| {
                    if let (Some(l), Some(h)) = c.range(&p) {
                        if l >= lo && h < hi {
                            return;
                        }
                    }
                    let key = (p.clone(), k);
                    if c.bits_cache.contains(&key) {
                        return;
                    }
                    let s = c.smt_poly(&p);
                    c.record_multi(format!("(and (>= {} {}) (< {} {}))", s, lo, s, hi));
                    c.learn(false, &p.sub(&Poly::constant(lo)), true);
                    c.learn(false, &Poly::constant(hi - 1).sub(&p), true);
                    c.bits_cache.insert(key);
                });
                k
            }
        }
    }
    pub fn trailing_zeros(&self) -> Option<u64> {
        match self {
            V::C(a) => a.trailing_zeros(),
            V::S(_) => {
                if self.is_zero() {
                    return None;
                }
                let k = self.val().trailing_zeros().unwrap();
                for i in 0..=k {
                    let m = V::C(R::one() << (i + 1));
                    let z = self.div_mod_floor(&m).1.is_zero();
                    if z != (i < k) {
                        engine_error("trailing_zeros".into());
                    }
                }
                Some(k)
            }
        }
    }
    /// bit of the two's complement representation
    pub fn bit(&self, b: u64) -> bool {
        match self {
            V::C(a) => a.bit(b),
            V::S(_) => !self
                .shr(b)
                .div_mod_floor(&V::C(R::from(2)))
                .1
                .is_zero(),
        }
    }
}

// concrete values of variables (for re-evaluating polynomials)
thread_local! {
    static VARVALS: RefCell<Rc<HashMap<u32, R>>> = RefCell::new(Rc::new(HashMap::new()));
}

fn set_eval(_c: &mut Ctx, v: &V) {
    if let V::S(s) = v {
        let (m, _) = s.poly.lead().unwrap();
        let idx = m.0[0].0;
        VARVALS.with(|x| {
            Rc::make_mut(&mut *x.borrow_mut()).insert(idx, s.val.clone());
        });
    }
}

fn eval(_c: &Ctx, p: &Poly) -> R {
    VARVALS.with(|x| {
        let x = x.borrow();
        let mut r = R::zero();
        for (m, c) in &p.0 {
            let mut t = c.clone();
            for &(v, e) in &m.0 {
                t *= x[&v].pow(e);
            }
            r += t;
        }
        r
    })
}

pub fn primes_upto(n: u64) -> Vec<u64> {
    (2..=n)
        .filter(|k| (2..).take_while(|d| d * d <= *k).all(|d| k % d != 0))
        .collect()
}

fn prime_factors(n: &R) -> Option<Vec<R>> {
    let mut n = n.to_u64()?;
    if n > 1 << 44 {
        return None;
    }
    let mut r = vec![];
    let mut d = 2u64;
    while d * d <= n {
        if n % d == 0 {
            r.push(R::from(d));
            while n % d == 0 {
                n /= d;
            }
        }
        d += 1;
    }
    if n > 1 {
        r.push(R::from(n));
    }
    Some(r)
}

// ---------------------------------------------------------------- harness interface

/// declares a symbolic input
pub fn input(name: &str, lo: Option<R>, hi: Option<R>) -> V {
    with(|c| {
        if c.inputs.iter().any(|i| i.name == name) {
            engine_error(format!("input {} declared twice", name));
        }
        let val = c.model.get(name).cloned().unwrap_or_else(|| {
            let mut v = R::one();
            if let Some(h) = &hi {
                if v > *h {
                    v = h.clone();
                }
            }
            if let Some(l) = &lo {
                if v < *l {
                    v = l.clone();
                }
            }
            v
        });
        assert!(lo.as_ref().map_or(true, |l| *l <= val), "input range");
        assert!(hi.as_ref().map_or(true, |h| *h >= val), "input range");
        let smt = format!("i{}", c.inputs.len());
        c.inputs.push(Input {
            name: name.into(),
            smt: smt.clone(),
            lo: lo.clone(),
            hi: hi.clone(),
            val: val.clone(),
        });
        explore::note_input(c.inputs.last().unwrap());
        c.items.push(Item::Decl(smt.clone()));
        if let Some(l) = &lo {
            c.items.push(Item::Def(format!("(>= {} {})", smt, num(l))));
        }
        if let Some(h) = &hi {
            c.items.push(Item::Def(format!("(<= {} {})", smt, num(h))));
        }
        if lo.is_some() && lo == hi {
            return V::C(val);
        }
        let v = c.new_var(smt, val, lo, hi);
        set_eval(c, &v);
        v
    })
}

fn num(c: &R) -> String {
    if c.is_negative() {
        format!("(- {})", -c)
    } else {
        c.to_string()
    }
}

pub fn assume(b: bool) {
    if !b {
        std::panic::panic_any(Stop::Assume);
    }
}

pub fn check_enter() {
    with(|c| {
        c.in_check += 1;
        c.checks += 1;
    })
}

pub fn check_leave() {
    with(|c| c.in_check -= 1)
}

pub fn cover(label: &str) {
    with(|c| {
        if !c.covers.iter().any(|x| x == label) {
            c.covers.push(label.into())
        }
    })
}

pub fn set_gcd_fork_limit(n: u64) {
    with(|c| c.gcd_fork_limit = n)
}

thread_local! {
    static PATHS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// differs between any two paths explored on this thread
pub fn path_number() -> u64 {
    PATHS.with(|p| p.get())
}

/// installs a path context on this thread
pub fn begin(ctx: Ctx) {
    PATHS.with(|p| p.set(p.get() + 1));
    VARVALS.with(|x| *x.borrow_mut() = Rc::new(HashMap::new()));
    CTX.with(|c| *c.borrow_mut() = Some(ctx));
}

pub fn end() -> Ctx {
    CTX.with(|c| c.borrow_mut().take().unwrap())
}

pub fn with_ctx<T>(f: impl FnOnce(&mut Ctx) -> T) -> T {
    with(f)
}
