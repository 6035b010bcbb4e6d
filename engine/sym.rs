// Symbolic scalar used to generate verification conditions from scarlet's own
// code.  This file is compiled *inside* the scarlet crate (cfg(scarlet_verif),
// see the hook in /repo/src/lib.rs) and gives the crate's numeric traits one
// more implementor, `Sym`.  The library's functions are then run unchanged with
// `Sym` in place of f32/f64: arithmetic builds terms, comparisons fork paths,
// and each completed path yields proof obligations.
//
// Two arithmetic readings (the contract chooses one):
//   Exact   : the four operations, sqrt and the elementary functions are the
//             mathematical ones on the reals extended with IEEE inf/NaN
//             (x/0 = +-inf or NaN with both zero signs tried, NaN compares false).
//   Rounded : every operation yields an unspecified rounding `rnd(e)` of the
//             exact value e, constrained only by the facts of IEEE-754
//             round-to-nearest stated (and axiomatised) in tools/vc.py:
//             monotone, fixes floats, next_down(rnd e) <= e <= next_up(rnd e).

use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Exact,
    Rounded,
}

/// A scalar value: a literal (possibly inf / NaN) or a term (always finite).
#[derive(Clone, Copy)]
pub enum Sym {
    L(f64),
    N(u32),
}
use Sym::{L, N};

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u64), // f64 bits, finite
    Pi,
    Var(String),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Div(u32, u32),
    Neg(u32),
    Min(u32, u32),
    Max(u32, u32),
    Abs(u32),
    Sqrt(u32),
    Fun(&'static str, Vec<u32>),
    Rnd(u32),
    Up(u32),
    Down(u32),
    Ite(u32, u32, u32), // bool node, then, else
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum BNode {
    True,
    False,
    Var(String),
    Lt(u32, u32),
    Le(u32, u32),
    Eq(u32, u32),
    Not(u32),
    And(Vec<u32>),
    Or(Vec<u32>),
}

/// A formula.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct B(pub u32);

pub struct PathAbort;

#[derive(Clone, Debug)]
pub struct Obligation {
    pub name: String,
    pub kind: &'static str, // "ensures" | "lemma" | "no-panic"
    pub assume: Vec<u32>,   // bool nodes
    pub goal: u32,
    pub hide: bool, // solver hint: do not expand nonlinear structure
    pub path: usize,
    pub tags: Vec<String>,
}

#[derive(Default)]
pub struct Arena {
    pub nodes: Vec<Node>,
    ix: HashMap<Node, u32>,
    pub bnodes: Vec<BNode>,
    bix: HashMap<BNode, u32>,
}

pub struct State {
    pub mode: Mode,
    pub arena: Arena,
    // path state
    pub script: Vec<bool>,
    pub pos: usize,
    pub assume: Vec<u32>,
    facts: HashMap<(u32, u32), u8>,
    bfacts: HashMap<u32, bool>,
    pub obligations: Vec<Obligation>,
    pub path: usize,
    pub unsupported: Option<String>,
    pub tags: Vec<String>,
    pub negzero: bool,
    pub flags: Vec<String>,
    fps: HashMap<u32, u64>,
    fpfacts: HashMap<u64, Vec<(u32, u32)>>,
    canon: HashMap<u64, (u32, u32)>,
}

thread_local! {
    pub static ST: RefCell<State> = RefCell::new(State {
        mode: Mode::Exact,
        arena: Arena::default(),
        script: vec![],
        pos: 0,
        assume: vec![],
        facts: HashMap::new(),
        bfacts: HashMap::new(),
        obligations: vec![],
        path: 0,
        unsupported: None,
        tags: vec![],
        negzero: true,
        flags: vec![],
        fps: HashMap::new(),
        fpfacts: HashMap::new(),
        canon: HashMap::new(),
    });
}

fn st<R>(f: impl FnOnce(&mut State) -> R) -> R {
    ST.with(|s| f(&mut s.borrow_mut()))
}

pub fn reset(mode: Mode) {
    st(|s| {
        s.mode = mode;
        s.arena = Arena::default();
        s.obligations.clear();
        s.path = 0;
        s.script.clear();
        s.unsupported = None;
        s.flags.clear();
        s.fps.clear();
    });
    begin_path(vec![]);
}

pub fn begin_path(script: Vec<bool>) {
    st(|s| {
        s.script = script;
        s.pos = 0;
        s.assume.clear();
        s.facts.clear();
        s.bfacts.clear();
        s.fpfacts.clear();
        s.canon.clear();
        s.tags.clear();
        s.unsupported = None;
    });
}

pub fn unsupported(what: &str) -> ! {
    st(|s| s.unsupported = Some(what.to_string()));
    std::panic::panic_any(PathAbort)
}

pub fn set_mode(mode: Mode) {
    st(|s| s.mode = mode);
}
pub fn mode() -> Mode {
    st(|s| s.mode)
}

fn mk(n: Node) -> u32 {
    st(|s| {
        if let Some(&i) = s.arena.ix.get(&n) {
            return i;
        }
        let i = s.arena.nodes.len() as u32;
        s.arena.nodes.push(n.clone());
        s.arena.ix.insert(n, i);
        i
    })
}
fn mkb(n: BNode) -> u32 {
    st(|s| {
        if let Some(&i) = s.arena.bix.get(&n) {
            return i;
        }
        let i = s.arena.bnodes.len() as u32;
        s.arena.bnodes.push(n.clone());
        s.arena.bix.insert(n, i);
        i
    })
}
fn node(i: u32) -> Node {
    st(|s| s.arena.nodes[i as usize].clone())
}
fn bnode(i: u32) -> BNode {
    st(|s| s.arena.bnodes[i as usize].clone())
}

// the rational multiples of pi that the source writes as float constants
fn pi_multiple(x: f64) -> Option<f64> {
    const M: [f64; 8] = [1.0, 2.0, 4.0, 0.5, 0.25, 0.125, 3.0, 1.5];
    for m in M {
        let v = std::f64::consts::PI * m;
        if x == v || x == (v as f32) as f64 {
            return Some(m);
        }
        if -x == v || -x == (v as f32) as f64 {
            return Some(-m);
        }
    }
    None
}

impl Sym {
    pub const fn lit(x: f64) -> Sym {
        L(x)
    }
    /// the exact value of a constant of std::f32::consts
    pub fn konst(name: &str) -> Sym {
        use std::f32::consts as c;
        match name {
            "PI" => pi_times(1.0),
            "TAU" => pi_times(2.0),
            "FRAC_PI_2" => pi_times(0.5),
            "FRAC_PI_3" => pi_times(1.0) / L(3.0),
            "FRAC_PI_4" => pi_times(0.25),
            "FRAC_PI_6" => pi_times(0.5) / L(3.0),
            "FRAC_PI_8" => pi_times(0.125),
            "FRAC_1_PI" => L(1.0) / pi_times(1.0),
            "FRAC_2_PI" => L(2.0) / pi_times(1.0),
            "SQRT_2" => c_sqrt(L(2.0)),
            "FRAC_1_SQRT_2" => c_sqrt(L(0.5)),
            "E" => L(c::E as f64),
            _ => unsupported("a constant of std::f32::consts"),
        }
    }
    pub fn var(name: &str) -> Sym {
        N(mk(Node::Var(name.to_string())))
    }
    /// node id of a finite value
    pub fn id(self) -> u32 {
        match self {
            N(i) => i,
            L(x) => {
                assert!(x.is_finite(), "special value used as a term");
                if let Some(m) = pi_multiple(x) {
                    let p = mk(Node::Pi);
                    if m == 1.0 {
                        return p;
                    }
                    let c = mk(Node::Const(m.to_bits()));
                    return mk(Node::Mul(c, p));
                }
                let x = if x == 0.0 { 0.0 } else { x };
                mk(Node::Const(x.to_bits()))
            }
        }
    }
    fn special(self) -> bool {
        matches!(self, L(x) if !x.is_finite())
    }
    fn isnan(self) -> bool {
        matches!(self, L(x) if x.is_nan())
    }
    fn isinf(self) -> bool {
        matches!(self, L(x) if x.is_infinite())
    }
    fn is_lit0(self) -> bool {
        matches!(self, L(x) if x == 0.0)
    }
    fn is_lit1(self) -> bool {
        matches!(self, L(x) if x == 1.0)
    }
}

// literals whose sums/products are exact in every binary float format in use
fn small(x: f64) -> bool {
    let y = x * 256.0;
    y == y.trunc() && y.abs() <= 1048576.0
}
fn fold(a: Sym, b: Sym, f: impl Fn(f64, f64) -> f64) -> Option<Sym> {
    if let (L(x), L(y)) = (a, b) {
        if small(x) && small(y) && pi_multiple(x).is_none() && pi_multiple(y).is_none() {
            let r = f(x, y);
            if small(r) {
                return Some(L(r));
            }
        }
    }
    None
}

// ------------------------------------------------------------ exact terms ---
// used by the specifications (X) and, wrapped in rnd in Rounded mode, by the code
fn t_add(a: Sym, b: Sym) -> Sym {
    if let Some(r) = fold(a, b, |x, y| x + y) {
        return r;
    }
    if a.is_lit0() {
        return b;
    }
    if b.is_lit0() {
        return a;
    }
    N(mk(Node::Add(a.id(), b.id())))
}
fn t_sub(a: Sym, b: Sym) -> Sym {
    if let Some(r) = fold(a, b, |x, y| x - y) {
        return r;
    }
    if b.is_lit0() {
        return a;
    }
    if a.is_lit0() {
        return t_neg(b);
    }
    if let (N(x), N(y)) = (a, b) {
        if x == y {
            return L(0.0);
        }
    }
    N(mk(Node::Sub(a.id(), b.id())))
}
fn t_mul(a: Sym, b: Sym) -> Sym {
    if let Some(r) = fold(a, b, |x, y| x * y) {
        return r;
    }
    if a.is_lit0() || b.is_lit0() {
        return L(0.0);
    }
    if a.is_lit1() {
        return b;
    }
    if b.is_lit1() {
        return a;
    }
    N(mk(Node::Mul(a.id(), b.id())))
}
fn t_div(a: Sym, b: Sym) -> Sym {
    if b.is_lit1() {
        return a;
    }
    if let (L(x), L(y)) = (a, b) {
        if small(x) && small(y) && y.abs().log2().fract() == 0.0 && y != 0.0 && small(x / y) {
            return L(x / y);
        }
    }
    N(mk(Node::Div(a.id(), b.id())))
}
fn t_neg(a: Sym) -> Sym {
    match a {
        L(x) => L(-x),
        N(i) => match node(i) {
            Node::Neg(j) => N(j),
            _ => N(mk(Node::Neg(i))),
        },
    }
}

// is this value a float of the format by construction?
fn is_float_valued(a: Sym) -> bool {
    match a {
        L(_) => true,
        N(i) => match node(i) {
            Node::Var(_) | Node::Rnd(_) | Node::Up(_) | Node::Down(_) => true,
            Node::Neg(j) => is_float_valued(N(j)),
            Node::Const(_) => true,
            _ => false,
        },
    }
}
fn rnd(a: Sym) -> Sym {
    if mode() == Mode::Exact {
        return canonical(a);
    }
    if a.special() || is_float_valued(a) {
        return a;
    }
    // multiplication by -1 and such are already floats; anything else is rounded
    N(mk(Node::Rnd(a.id())))
}

// A value the code computes that is one of the specification's named terms in
// another form is replaced by that term; the equality becomes an obligation.
fn canonical(a: Sym) -> Sym {
    let N(i) = a else { return a };
    if st(|s| s.canon.is_empty()) {
        return a;
    }
    let Some((seen, to)) = st_canon(fp(i)) else { return a };
    if i == to {
        return a;
    }
    if i != seen {
        same_value(i, seen, None);
    }
    N(to)
}
fn st_canon(f: u64) -> Option<(u32, u32)> {
    st(|s| s.canon.get(&f).copied())
}
/// the same term, or (as far as the fingerprints tell) the same value
pub fn same(a: X, b: X) -> bool {
    match (a.0, b.0) {
        (N(i), N(j)) => i == j || fp(i) == fp(j),
        (L(a), L(b)) => a == b,
        _ => false,
    }
}
/// name a term: the code's computations of its value yield it
pub fn canon(x: X) {
    alias(x, x)
}
/// the code's computations of `seen` yield `to` (proved equal by the caller)
pub fn alias(seen: X, to: X) {
    if let (N(a), N(b)) = (seen.0, to.0) {
        let f = fp(a);
        st(|s| s.canon.insert(f, (a, b)));
    }
}

// -------------------------------------------------------------- decisions ---
fn record(b: u32, v: bool) {
    let lit = if v { b } else { mkb(BNode::Not(b)) };
    st(|s| s.assume.push(lit));
}

fn next_choice() -> bool {
    st(|s| {
        if s.pos < s.script.len() {
            s.pos += 1;
            s.script[s.pos - 1]
        } else {
            s.script.push(true);
            s.pos += 1;
            true
        }
    })
}

const LT: u8 = 1;
const EQ: u8 = 2;
const GT: u8 = 4;

fn const_val(i: u32) -> Option<f64> {
    match node(i) {
        Node::Const(b) => Some(f64::from_bits(b)),
        _ => None,
    }
}

// possible orderings of a, b known so far
fn known(a: u32, b: u32) -> u8 {
    if a == b {
        return EQ;
    }
    if let (Some(x), Some(y)) = (const_val(a), const_val(b)) {
        return if x < y {
            LT
        } else if x > y {
            GT
        } else {
            EQ
        };
    }
    let mut m = if const_val(b) == Some(0.0) {
        sign_of(a, 8)
    } else if const_val(a) == Some(0.0) {
        flip(sign_of(b, 8))
    } else {
        get_fact(a, b)
    };
    if m.count_ones() > 1 {
        m &= chain(a, b);
    }
    if m.count_ones() > 1 && mode() == Mode::Rounded {
        m &= mono(a, b, 4);
    }
    if m.count_ones() > 1 {
        m &= extreme(a, b) & flip(extreme(b, a));
    }
    m
}

// orderings left open when a is the smaller or larger of two values
fn extreme(a: u32, b: u32) -> u8 {
    let (x, y, min) = match node(a) {
        Node::Min(x, y) => (x, y, true),
        Node::Max(x, y) => (x, y, false),
        _ => return 7,
    };
    // for a maximum, everything the other way round
    let f = |m: u8| if min { m } else { flip(m) };
    let (p, q) = (f(known(x, b)), f(known(y, b)));
    let mut m = 7;
    if p == LT || q == LT {
        m &= LT;
    } else if p & GT == 0 || q & GT == 0 {
        m &= LT | EQ;
    }
    if p & LT == 0 && q & LT == 0 {
        m &= GT | EQ;
    }
    if p == GT && q == GT {
        m &= GT;
    }
    f(m)
}

// orderings left open by monotone operations
fn mono(a: u32, b: u32, depth: u32) -> u8 {
    if depth == 0 {
        return 7;
    }
    let sub = |x: u32, y: u32| -> u8 {
        if x == y {
            EQ
        } else {
            get_fact(x, y) & chain(x, y) & mono(x, y, depth - 1)
        }
    };
    let weak = |m: u8| -> u8 {
        match m {
            LT => LT | EQ,
            GT => GT | EQ,
            m => m,
        }
    };
    match (node(a), node(b)) {
        (Node::Up(x), Node::Up(y)) | (Node::Down(x), Node::Down(y)) => sub(x, y),
        (Node::Rnd(x), Node::Rnd(y)) => weak(sub(x, y)),
        (Node::Neg(x), Node::Neg(y)) => flip(sub(x, y)),
        _ => 7,
    }
}

// orderings left open by the transitive closure of the recorded facts and of
// next_down(x) < x < next_up(x)
fn chain(a: u32, b: u32) -> u8 {
    let up = reach(a, b);
    let down = reach(b, a);
    let mut m = 7;
    match up {
        Some(true) => m &= LT,
        Some(false) => m &= LT | EQ,
        None => {}
    }
    match down {
        Some(true) => m &= GT,
        Some(false) => m &= GT | EQ,
        None => {}
    }
    m
}
// Some(strict) when a <= b (a < b) follows
fn reach(a: u32, b: u32) -> Option<bool> {
    st(|s| {
        // edges x <= y
        let mut edges: Vec<(u32, u32, bool)> = vec![];
        let mut consts: Vec<(u32, f64)> = vec![];
        let mut touched: Vec<u32> = vec![a, b];
        for (&(x, y), &m) in s.facts.iter() {
            if m & GT == 0 {
                edges.push((x, y, m & EQ == 0));
            }
            if m & LT == 0 {
                edges.push((y, x, m & EQ == 0));
            }
            touched.push(x);
            touched.push(y);
        }
        let mut i = 0;
        touched.sort_unstable();
        touched.dedup();
        while i < touched.len() {
            let t = touched[i];
            i += 1;
            match &s.arena.nodes[t as usize] {
                Node::Down(x) => {
                    edges.push((t, *x, true));
                    if !touched.contains(x) {
                        touched.push(*x);
                    }
                }
                Node::Up(x) => {
                    edges.push((*x, t, true));
                    if !touched.contains(x) {
                        touched.push(*x);
                    }
                }
                Node::Const(c) => consts.push((t, f64::from_bits(*c))),
                _ => {}
            }
        }
        for &(x, p) in &consts {
            for &(y, q) in &consts {
                if p < q {
                    edges.push((x, y, true));
                }
            }
        }
        let mut best: HashMap<u32, bool> = HashMap::new();
        best.insert(a, false);
        let mut work = vec![a];
        while let Some(x) = work.pop() {
            let sx = best[&x];
            for &(p, q, strict) in &edges {
                if p == x {
                    let v = sx || strict;
                    match best.get(&q) {
                        Some(&o) if o || !v => {}
                        _ => {
                            best.insert(q, v);
                            work.push(q);
                        }
                    }
                }
            }
        }
        best.get(&b).copied()
    })
}

// possible signs of a term: facts on the term itself and sign rules
fn sign_of(a: u32, depth: u32) -> u8 {
    if let Some(c) = const_val(a) {
        return if c < 0.0 {
            LT
        } else if c > 0.0 {
            GT
        } else {
            EQ
        };
    }
    let z = L(0.0).id();
    let f = raw_fact(a, z);
    if f.count_ones() <= 1 || depth == 0 {
        return f;
    }
    let d = depth - 1;
    let exact = mode() == Mode::Exact;
    let s = match node(a) {
        Node::Pi => GT,
        Node::Neg(x) => flip(sign_of(x, d)),
        Node::Abs(x) => {
            let m = sign_of(x, d);
            (m & EQ) | if m & (LT | GT) != 0 { GT } else { 0 }
        }
        Node::Sqrt(x) => sign_of(x, d) & (EQ | GT),
        Node::Add(x, y) => sign_add(sign_of(x, d), sign_of(y, d)),
        Node::Sub(x, y) => match raw_fact(x, y) {
            7 => sign_add(sign_of(x, d), flip(sign_of(y, d))),
            m => m,
        },
        Node::Mul(x, y) => {
            let m = sign_of(x, d);
            if x == y {
                (m & EQ) | if m & (LT | GT) != 0 { GT } else { 0 }
            } else {
                sign_mul(m, sign_of(y, d))
            }
        }
        Node::Div(x, y) => {
            let m = sign_of(y, d);
            if m & EQ != 0 {
                7
            } else {
                sign_mul(sign_of(x, d), m)
            }
        }
        Node::Rnd(x) if !exact => {
            // rounding keeps the weak sign
            let m = sign_of(x, d);
            match m {
                EQ => EQ,
                _ => m | EQ,
            }
        }
        _ => 7,
    };
    f & s
}
fn sign_add(x: u8, y: u8) -> u8 {
    let mut r = 0;
    for (i, j, k) in [
        (LT, LT, LT),
        (LT, EQ, LT),
        (LT, GT, 7),
        (EQ, LT, LT),
        (EQ, EQ, EQ),
        (EQ, GT, GT),
        (GT, LT, 7),
        (GT, EQ, GT),
        (GT, GT, GT),
    ] {
        if x & i != 0 && y & j != 0 {
            r |= k;
        }
    }
    r
}
fn sign_mul(x: u8, y: u8) -> u8 {
    let mut r = 0;
    for (i, j, k) in [
        (LT, LT, GT),
        (LT, EQ, EQ),
        (LT, GT, LT),
        (EQ, LT, EQ),
        (EQ, EQ, EQ),
        (EQ, GT, EQ),
        (GT, LT, LT),
        (GT, EQ, EQ),
        (GT, GT, GT),
    ] {
        if x & i != 0 && y & j != 0 {
            r |= k;
        }
    }
    r
}
fn raw_fact(a: u32, b: u32) -> u8 {
    st(|s| {
        if a < b {
            *s.facts.get(&(a, b)).unwrap_or(&7)
        } else {
            flip(*s.facts.get(&(b, a)).unwrap_or(&7))
        }
    })
}
fn flip(m: u8) -> u8 {
    (m & EQ) | if m & LT != 0 { GT } else { 0 } | if m & GT != 0 { LT } else { 0 }
}
fn get_fact(a: u32, b: u32) -> u8 {
    raw_fact(a, b)
}
fn set_fact(a: u32, b: u32, m: u8) {
    let key = pm_sub(fp(a), fp(b));
    st(|s| {
        let v = s.fpfacts.entry(key).or_default();
        if !v.contains(&(a, b)) {
            v.push((a, b));
        }
    });
    st(|s| {
        if a < b {
            *s.facts.entry((a, b)).or_insert(7) &= m;
        } else {
            *s.facts.entry((b, a)).or_insert(7) &= flip(m);
        }
    });
    if m == EQ && const_val(b) == Some(0.0) {
        vanish(a, b);
    } else if m == EQ && const_val(a) == Some(0.0) {
        vanish(b, a);
    }
}
// a = 0: what else is zero
fn vanish(a: u32, z: u32) {
    match node(a) {
        Node::Sqrt(x) if sign_of(x, 8) & LT == 0 => set_fact(x, z, EQ),
        Node::Mul(x, y) if x == y => set_fact(x, z, EQ),
        Node::Neg(x) | Node::Abs(x) => set_fact(x, z, EQ),
        Node::Add(x, y) if (sign_of(x, 8) | sign_of(y, 8)) & LT == 0 => {
            set_fact(x, z, EQ);
            set_fact(y, z, EQ);
        }
        _ => {}
    }
}

// ------------------------------------------------------------ fingerprints ---
// Value of a term at a fixed random point, modulo 2^61 - 1.  Terms with equal
// fingerprints are equal with overwhelming probability; whenever that is used to
// decide a comparison, the equality is emitted as an obligation ("same value"),
// so nothing rests on the probability.
const PM: u64 = (1 << 61) - 1;
fn pm_add(a: u64, b: u64) -> u64 {
    (a + b) % PM
}
fn pm_sub(a: u64, b: u64) -> u64 {
    (a + PM - b) % PM
}
fn pm_mul(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % PM as u128) as u64
}
fn pm_pow(mut a: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = pm_mul(r, a);
        }
        a = pm_mul(a, a);
        e >>= 1;
    }
    r
}
fn hash_str(t: &str, xs: &[u64]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in t.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    for x in xs {
        h = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    h = (h ^ (h >> 31)).wrapping_mul(0x94D049BB133111EB);
    (h ^ (h >> 30)) % PM
}
fn fp(i: u32) -> u64 {
    if let Some(v) = st(|s| s.fps.get(&i).copied()) {
        return v;
    }
    let v = match node(i) {
        Node::Const(b) => {
            let b = b;
            let neg = b >> 63 != 0;
            let e = ((b >> 52) & 0x7ff) as i64;
            let m = b & ((1u64 << 52) - 1);
            let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
            // 2^61 = 1 modulo PM
            let v = pm_mul(m % PM, pm_pow(2, e.rem_euclid(61) as u64));
            if neg {
                pm_sub(0, v)
            } else {
                v
            }
        }
        Node::Pi => hash_str("pi", &[]),
        Node::Var(x) => hash_str(&x, &[1]),
        Node::Add(a, b) => pm_add(fp(a), fp(b)),
        Node::Sub(a, b) => pm_sub(fp(a), fp(b)),
        Node::Mul(a, b) => pm_mul(fp(a), fp(b)),
        Node::Div(a, b) => pm_mul(fp(a), pm_pow(fp(b), PM - 2)),
        Node::Neg(a) => pm_sub(0, fp(a)),
        Node::Min(a, b) => hash_str("min", &[fp(a).min(fp(b)), fp(a).max(fp(b))]),
        Node::Max(a, b) => hash_str("max", &[fp(a).min(fp(b)), fp(a).max(fp(b))]),
        Node::Abs(a) => hash_str("abs", &[fp(a)]),
        Node::Sqrt(a) => {
            // a root modulo PM where there is one (PM = 3 mod 4)
            let v = fp(a);
            let r = pm_pow(v, (PM + 1) / 4);
            if pm_mul(r, r) == v {
                r
            } else {
                hash_str("sqrt", &[v])
            }
        }
        Node::Fun(f, a) if f == "sin" || f == "cos" => {
            // a point of the circle; the argument is s r + k pi/2 with a representative
            // r that (nearly always) is the same for all such arguments
            let v = fp(a[0]);
            let q = pm_mul(hash_str("pi", &[]), pm_pow(2, 60));
            let (mut up, mut down) = (v, v);
            let mut best = (u64::MAX, 0, false, 0i32);
            for k in 0..400i32 {
                for (w, k) in [(down, k), (up, -k)] {
                    for (r, flip) in [(w, false), (pm_sub(0, w), true)] {
                        let c = (hash_str("half angle", &[r]), r, flip, k);
                        if c.0 < best.0 {
                            best = c;
                        }
                    }
                }
                up = pm_add(up, q);
                down = pm_sub(down, q);
            }
            let (h, _, flip, k) = best;
            let hh = pm_mul(h, h);
            let d = pm_pow(pm_add(1, hh), PM - 2);
            let (mut si, co) = (pm_mul(pm_add(h, h), d), pm_mul(pm_sub(1, hh), d));
            if flip {
                si = pm_sub(0, si);
            }
            let (ms, mc) = (pm_sub(0, si), pm_sub(0, co));
            let i = k.rem_euclid(4) as usize;
            if f == "sin" {
                [si, co, ms, mc][i]
            } else {
                [co, ms, mc, si][i]
            }
        }
        Node::Fun(f, a) => hash_str(f, &a.iter().map(|x| fp(*x)).collect::<Vec<_>>()),
        Node::Rnd(a) => hash_str("rnd", &[fp(a)]),
        Node::Up(a) => hash_str("up", &[fp(a)]),
        Node::Down(a) => hash_str("down", &[fp(a)]),
        Node::Ite(b, x, y) => hash_str("ite", &[b as u64, fp(x), fp(y)]),
    };
    st(|s| s.fps.insert(i, v));
    v
}
// known orderings of terms that differ from a and b only in form
fn known_fp(a: u32, b: u32) -> u8 {
    let key = pm_sub(fp(a), fp(b));
    if key == 0 {
        same_value(a, b, None);
        set_fact(a, b, EQ);
        return EQ;
    }
    for (k, fl) in [(key, false), (pm_sub(0, key), true)] {
        for (x, y) in st(|s| s.fpfacts.get(&k).cloned().unwrap_or_default()) {
            let (x, y) = if fl { (y, x) } else { (x, y) };
            if (x, y) == (a, b) {
                continue;
            }
            let m = known(x, y);
            if m.count_ones() < 3 {
                same_value(a, b, Some((x, y)));
                set_fact(a, b, m);
                return m;
            }
        }
    }
    7
}
fn same_value(a: u32, b: u32, xy: Option<(u32, u32)>) {
    let g = match xy {
        None => mkb(BNode::Eq(a.min(b), a.max(b))),
        Some((x, y)) => {
            let p = mk(Node::Sub(a, b));
            let q = mk(Node::Sub(x, y));
            mkb(BNode::Eq(p.min(q), p.max(q)))
        }
    };
    oblige("canon", "same value", B(g));
    st(|s| s.assume.push(g));
}

fn cmp_node(a: u32, b: u32, allow: u8) -> u32 {
    match allow {
        x if x == LT => mkb(BNode::Lt(a, b)),
        x if x == LT | EQ => mkb(BNode::Le(a, b)),
        x if x == EQ => {
            let (p, q) = if a < b { (a, b) } else { (b, a) };
            mkb(BNode::Eq(p, q))
        }
        x if x == GT => mkb(BNode::Lt(b, a)),
        x if x == GT | EQ => mkb(BNode::Le(b, a)),
        x if x == LT | GT => {
            let (p, q) = if a < b { (a, b) } else { (b, a) };
            let e = mkb(BNode::Eq(p, q));
            mkb(BNode::Not(e))
        }
        7 => mkb(BNode::True),
        _ => mkb(BNode::False),
    }
}

// does the ordering of a and b lie in `allow`?
fn decide_cmp(a: Sym, b: Sym, allow: u8) -> bool {
    if a.isnan() || b.isnan() {
        return false;
    }
    if a.special() || b.special() {
        let v = |s: Sym| match s {
            L(x) => x,
            N(_) => 0.0,
        };
        let o = if v(a) < v(b) {
            LT
        } else if v(a) > v(b) {
            GT
        } else {
            EQ
        };
        return o & allow != 0;
    }
    let (i, j) = (a.id(), b.id());
    let mut k = known(i, j);
    if k & allow != 0 && k & !allow != 0 {
        k &= known_fp(i, j);
    }
    if k == 0 {
        // the facts recorded on this path contradict each other
        std::panic::panic_any(PathAbort)
    }
    if k & !allow == 0 {
        return true;
    }
    if k & allow == 0 {
        return false;
    }
    let v = next_choice();
    let n = cmp_node(i, j, allow);
    record(n, v);
    set_fact(i, j, if v { allow } else { 7 & !allow });
    v
}

/// fork on a formula
pub fn decide(b: B) -> bool {
    match bnode(b.0) {
        BNode::True => return true,
        BNode::False => return false,
        BNode::Lt(x, y) => return decide_cmp(N(x), N(y), LT),
        BNode::Le(x, y) => return decide_cmp(N(x), N(y), LT | EQ),
        BNode::Eq(x, y) => return decide_cmp(N(x), N(y), EQ),
        BNode::Not(x) => return !decide(B(x)),
        _ => {}
    }
    if let Some(v) = st(|s| s.bfacts.get(&b.0).copied()) {
        return v;
    }
    let v = next_choice();
    record(b.0, v);
    st(|s| s.bfacts.insert(b.0, v));
    v
}

// ----------------------------------------------------- arithmetic for code ---
fn sgn(a: Sym) -> Option<Ordering> {
    // sign of a non-NaN value, forking when unknown
    if decide_cmp(a, L(0.0), GT) {
        Some(Ordering::Greater)
    } else if decide_cmp(a, L(0.0), EQ) {
        Some(Ordering::Equal)
    } else {
        Some(Ordering::Less)
    }
}
fn litval(a: Sym) -> f64 {
    match a {
        L(x) => x,
        N(_) => 0.0,
    }
}
fn zero_is_negative(b: Sym) -> bool {
    match b {
        L(x) => x.is_sign_negative(),
        N(i) => {
            if !st(|s| s.negzero) {
                return false;
            }
            decide(B(mkb(BNode::Var(format!("negzero_{}", i)))))
        }
    }
}
fn c_add(a: Sym, b: Sym) -> Sym {
    if a.special() || b.special() {
        return L(litval(a) + litval(b));
    }
    rnd(t_add(a, b))
}
fn c_sub(a: Sym, b: Sym) -> Sym {
    if a.special() || b.special() {
        return L(litval(a) - litval(b));
    }
    rnd(t_sub(a, b))
}
fn c_mul(a: Sym, b: Sym) -> Sym {
    if a.isnan() || b.isnan() {
        return L(f64::NAN);
    }
    if a.isinf() || b.isinf() {
        let s = |x: Sym| match sgn(x) {
            Some(Ordering::Greater) => 1.0,
            Some(Ordering::Less) => -1.0,
            _ => 0.0,
        };
        let (x, y) = (s(a), s(b));
        if x == 0.0 || y == 0.0 {
            return L(f64::NAN);
        }
        return L(f64::INFINITY * x * y);
    }
    rnd(t_mul(a, b))
}
fn c_div(a: Sym, b: Sym) -> Sym {
    if a.isnan() || b.isnan() || (a.isinf() && b.isinf()) {
        return L(f64::NAN);
    }
    if b.isinf() {
        return L(0.0);
    }
    if decide_cmp(b, L(0.0), EQ) {
        if decide_cmp(a, L(0.0), EQ) {
            return L(f64::NAN);
        }
        let pos = decide_cmp(a, L(0.0), GT);
        let neg = zero_is_negative(b);
        return L(if pos != neg {
            f64::INFINITY
        } else {
            f64::NEG_INFINITY
        });
    }
    if a.isinf() {
        let pos = decide_cmp(b, L(0.0), GT);
        return if pos { a } else { L(-litval(a)) };
    }
    if a.is_lit0() {
        return L(0.0);
    }
    rnd(t_div(a, b))
}
fn c_sqrt(a: Sym) -> Sym {
    match a {
        L(x) if !x.is_finite() => return L(x.sqrt()),
        _ => {}
    }
    if decide_cmp(a, L(0.0), LT) {
        return L(f64::NAN);
    }
    if let L(x) = a {
        let r = x.sqrt();
        if small(x) && small(r) && r * r == x {
            return L(r);
        }
    }
    rnd(t_sqrt(a))
}
fn t_sqrt(a: Sym) -> Sym {
    // sqrt(s*s) is kept as a sqrt node: its axioms say r >= 0 and r*r = s*s
    N(mk(Node::Sqrt(a.id())))
}
fn t_fun(name: &'static str, args: &[Sym]) -> Sym {
    N(mk(Node::Fun(name, args.iter().map(|a| a.id()).collect())))
}
fn c_fun(name: &'static str, args: &[Sym]) -> Sym {
    if args.iter().any(|a| a.isnan()) {
        return L(f64::NAN);
    }
    if let [L(x)] = args {
        if *x == 0.0 {
            match name {
                "sin" | "tan" | "asin" | "atan" => return L(*x),
                "cos" => return L(1.0),
                _ => {}
            }
        }
        if *x == 1.0 && name == "acos" {
            return L(0.0);
        }
    }
    if args.iter().any(|a| a.special()) {
        match name {
            "sin" | "cos" | "tan" | "asin" | "acos" => return L(f64::NAN),
            "atan" => {
                // +-pi/2
                let h = t_mul(L(0.5), N(mk(Node::Pi)));
                let h = if litval(args[0]) > 0.0 { h } else { t_neg(h) };
                return rnd_keep(h);
            }
            _ => unsupported("elementary function of an infinite value"),
        }
    }
    if name == "asin" || name == "acos" {
        if decide_cmp(args[0], L(-1.0), LT) || decide_cmp(args[0], L(1.0), GT) {
            return L(f64::NAN);
        }
    }
    rnd(t_fun(name, args))
}
// rounding of a mathematical constant: exact in Exact mode
fn rnd_keep(a: Sym) -> Sym {
    if mode() == Mode::Exact {
        a
    } else {
        N(mk(Node::Rnd(a.id())))
    }
}

macro_rules! binop {
    ($tr:ident, $m:ident, $atr:ident, $am:ident, $f:path) => {
        impl std::ops::$tr<Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                $f(self, o)
            }
        }
        impl std::ops::$atr<Sym> for Sym {
            fn $am(&mut self, o: Sym) {
                *self = $f(*self, o);
            }
        }
        // with a float literal, which the crate may write where its scalar is a float
        impl std::ops::$tr<Sym> for f64 {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym {
                $f(Sym::lit(self), o)
            }
        }
    };
}
fn c_rem(_a: Sym, _b: Sym) -> Sym {
    unsupported("remainder")
}
binop!(Add, add, AddAssign, add_assign, c_add);
binop!(Sub, sub, SubAssign, sub_assign, c_sub);
binop!(Mul, mul, MulAssign, mul_assign, c_mul);
binop!(Div, div, DivAssign, div_assign, c_div);
binop!(Rem, rem, RemAssign, rem_assign, c_rem);
impl std::ops::Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        t_neg(self)
    }
}
impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            L(x) => write!(f, "{}", x),
            N(i) => write!(f, "n{}", i),
        }
    }
}
impl std::fmt::Display for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self)
    }
}
impl Default for Sym {
    fn default() -> Sym {
        L(0.0)
    }
}
impl From<f32> for Sym {
    fn from(x: f32) -> Sym {
        L(x as f64)
    }
}
impl From<f64> for Sym {
    fn from(x: f64) -> Sym {
        L(x)
    }
}
macro_rules! from_int {
    ($($t:ty),*) => { $(impl From<$t> for Sym { fn from(x: $t) -> Sym { L(x as f64) } })* }
}
from_int!(i8, i16, i32, u8, u16, u32);
impl std::iter::Sum<Sym> for Sym {
    fn sum<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(L(0.0), |a, b| a + b)
    }
}
impl std::iter::Product<Sym> for Sym {
    fn product<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(L(1.0), |a, b| a * b)
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        decide_cmp(*self, *o, EQ)
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        if self.isnan() || o.isnan() {
            return None;
        }
        if decide_cmp(*self, *o, LT) {
            Some(Ordering::Less)
        } else if decide_cmp(*self, *o, EQ) {
            Some(Ordering::Equal)
        } else {
            Some(Ordering::Greater)
        }
    }
    fn lt(&self, o: &Sym) -> bool {
        decide_cmp(*self, *o, LT)
    }
    fn le(&self, o: &Sym) -> bool {
        decide_cmp(*self, *o, LT | EQ)
    }
    fn gt(&self, o: &Sym) -> bool {
        decide_cmp(*self, *o, GT)
    }
    fn ge(&self, o: &Sym) -> bool {
        decide_cmp(*self, *o, GT | EQ)
    }
}

// the inherent API of f32/f64 that code over `Float` may call.  Where the
// library calls x.min(y) on a concrete Float, rustc picks f32's inherent
// method, not the Scalar trait's; having inherent methods here mirrors that.
impl Sym {
    pub const MAX: Sym = L(f32::MAX as f64);
    pub const MIN: Sym = L(f32::MIN as f64);
    pub const INFINITY: Sym = L(f64::INFINITY);
    pub const NEG_INFINITY: Sym = L(f64::NEG_INFINITY);
    pub const NAN: Sym = L(f64::NAN);
    pub const EPSILON: Sym = L(f32::EPSILON as f64);
    pub const MIN_POSITIVE: Sym = L(f32::MIN_POSITIVE as f64);

    pub fn min(self, o: Sym) -> Sym {
        minmax(self, o, true)
    }
    pub fn max(self, o: Sym) -> Sym {
        minmax(self, o, false)
    }
    pub fn clamp(self, lo: Sym, hi: Sym) -> Sym {
        assert!(decide_cmp(lo, hi, LT | EQ), "clamp: lo > hi");
        if self.isnan() {
            return self;
        }
        self.max(lo).min(hi)
    }
    pub fn abs(self) -> Sym {
        match self {
            L(x) => L(x.abs()),
            N(i) => {
                let k = known(i, L(0.0).id());
                if k & LT == 0 {
                    self
                } else if k & GT == 0 {
                    t_neg(self)
                } else {
                    N(mk(Node::Abs(i)))
                }
            }
        }
    }
    pub fn signum(self) -> Sym {
        // f32::signum: +-1 also at +-0
        if self.isnan() {
            return self;
        }
        if decide_cmp(self, L(0.0), GT) {
            L(1.0)
        } else if decide_cmp(self, L(0.0), LT) || zero_is_negative(self) {
            L(-1.0)
        } else {
            L(1.0)
        }
    }
    pub fn copysign(self, s: Sym) -> Sym {
        let g = s.signum();
        self.abs() * g
    }
    pub fn is_sign_negative(self) -> bool {
        decide_cmp(self, L(0.0), LT) || (decide_cmp(self, L(0.0), EQ) && zero_is_negative(self))
    }
    pub fn is_sign_positive(self) -> bool {
        !self.is_sign_negative()
    }
    pub fn recip(self) -> Sym {
        L(1.0) / self
    }
    pub fn powi(self, n: i32) -> Sym {
        let mut r = L(1.0);
        for _ in 0..n.unsigned_abs().min(16) {
            r = r * self;
        }
        if n.unsigned_abs() > 16 {
            unsupported("powi with a large exponent")
        }
        if n < 0 {
            L(1.0) / r
        } else {
            r
        }
    }
    pub fn mul_add(self, a: Sym, b: Sym) -> Sym {
        if self.special() || a.special() || b.special() {
            return self * a + b;
        }
        rnd(t_add(t_mul(self, a), b))
    }
    pub fn hypot(self, o: Sym) -> Sym {
        c_sqrt(self * self + o * o)
    }
    pub fn to_radians(self) -> Sym {
        self * (N(mk(Node::Pi)) / L(180.0))
    }
    pub fn to_degrees(self) -> Sym {
        self * (L(180.0) / N(mk(Node::Pi)))
    }
    pub fn sqrt(self) -> Sym {
        c_sqrt(self)
    }
    pub fn sin(self) -> Sym {
        c_fun("sin", &[self])
    }
    pub fn cos(self) -> Sym {
        c_fun("cos", &[self])
    }
    pub fn sin_cos(self) -> (Sym, Sym) {
        (self.sin(), self.cos())
    }
    pub fn tan(self) -> Sym {
        c_fun("tan", &[self])
    }
    pub fn asin(self) -> Sym {
        c_fun("asin", &[self])
    }
    pub fn acos(self) -> Sym {
        c_fun("acos", &[self])
    }
    pub fn atan(self) -> Sym {
        c_fun("atan", &[self])
    }
    pub fn atan2(self, x: Sym) -> Sym {
        c_fun("atan2", &[self, x])
    }
    pub fn is_nan(self) -> bool {
        self.isnan()
    }
    pub fn is_finite(self) -> bool {
        !self.special()
    }
    pub fn is_infinite(self) -> bool {
        self.isinf()
    }
    pub fn total_cmp(&self, o: &Sym) -> Ordering {
        self.partial_cmp(o)
            .unwrap_or_else(|| unsupported("total_cmp on NaN"))
    }
    pub fn to_f64(self) -> f64 {
        match self {
            L(x) => x,
            N(_) => unsupported("conversion of a symbolic value to f64"),
        }
    }
}
fn minmax(a: Sym, b: Sym, is_min: bool) -> Sym {
    // IEEE minNum/maxNum: a NaN argument is ignored
    if a.isnan() {
        return b;
    }
    if b.isnan() {
        return a;
    }
    if a.special() || b.special() {
        let lt = decide_cmp(a, b, LT | EQ);
        return if lt == is_min { a } else { b };
    }
    let (i, j) = (a.id(), b.id());
    let k = known(i, j);
    if k & GT == 0 {
        return if is_min { a } else { b };
    }
    if k & LT == 0 {
        return if is_min { b } else { a };
    }
    N(mk(if is_min {
        Node::Min(i, j)
    } else {
        Node::Max(i, j)
    }))
}

fn up(a: Sym) -> Sym {
    match a {
        L(x) if x.is_nan() || x == f64::INFINITY => a,
        L(x) if x == f64::NEG_INFINITY => N(mk(Node::Var("float_lowest".into()))),
        _ => {
            if mode() == Mode::Exact {
                unsupported("next_up in exact arithmetic")
            }
            N(mk(Node::Up(a.id())))
        }
    }
}
fn down(a: Sym) -> Sym {
    match a {
        L(x) if x.is_nan() || x == f64::NEG_INFINITY => a,
        L(x) if x == f64::INFINITY => N(mk(Node::Var("float_highest".into()))),
        _ => {
            if mode() == Mode::Exact {
                unsupported("next_down in exact arithmetic")
            }
            N(mk(Node::Down(a.id())))
        }
    }
}

impl crate::math::scalar::Scalar for Sym {
    fn zero() -> Sym {
        L(0.0)
    }
    fn one() -> Sym {
        L(1.0)
    }
    fn lowest() -> Sym {
        Sym::MIN
    }
    fn highest() -> Sym {
        Sym::MAX
    }
    // by their contracts (C06 proves the provided bodies): a term instead of two paths.
    // With NaN, the other operand or NaN: as the provided bodies do.
    fn min(self, o: Sym) -> Sym {
        provided_minmax(self, o, true)
    }
    fn max(self, o: Sym) -> Sym {
        provided_minmax(self, o, false)
    }
}
fn provided_minmax(a: Sym, b: Sym, is_min: bool) -> Sym {
    if a.special() || b.special() || mode() != Mode::Exact {
        let first = if is_min { a < b } else { a > b };
        return if first { a } else { b };
    }
    minmax(a, b, is_min)
}
impl crate::math::scalar::SignedScalar for Sym {}

fn pi_times(m: f64) -> Sym {
    t_mul(L(m), N(mk(Node::Pi)))
}
fn pi_bound(name: &'static str) -> Sym {
    // the enclosing constants: contracts assumed here, discharged bit-precisely
    // for f32 and f64 by the Kani obligations of C03
    if mode() == Mode::Exact {
        let m = match &name[..4] {
            "pi1_" => 1.0,
            "pi2_" => 2.0,
            "pih_" => 0.5,
            _ => 0.25,
        };
        return pi_times(m);
    }
    N(mk(Node::Var(name.to_string())))
}

impl crate::math::scalar::GFloat for Sym {
    fn next_up(self) -> Sym {
        up(self)
    }
    fn next_down(self) -> Sym {
        down(self)
    }
    fn to_i64(self) -> i64 {
        Sym::to_f64(self) as i64
    }
    fn to_f32(self) -> f32 {
        Sym::to_f64(self) as f32
    }
    fn to_f64(self) -> f64 {
        Sym::to_f64(self)
    }
    fn from_i64(x: i64) -> Sym {
        L(x as f64)
    }
    fn from_f32(x: f32) -> Sym {
        L(x as f64)
    }
    fn from_f64(x: f64) -> Sym {
        L(x)
    }
    fn nan() -> Sym {
        L(f64::NAN)
    }
    fn infinity() -> Sym {
        L(f64::INFINITY)
    }
    fn neg_infinity() -> Sym {
        L(f64::NEG_INFINITY)
    }
    fn neg_zero() -> Sym {
        L(-0.0)
    }
    fn min_positive_value() -> Sym {
        Sym::MIN_POSITIVE
    }
    fn is_nan(self) -> bool {
        self.isnan()
    }
    fn is_finite(self) -> bool {
        !self.special()
    }
    fn is_infinite(self) -> bool {
        self.isinf()
    }
    fn half() -> Sym {
        L(0.5)
    }
    fn pi() -> Sym {
        rnd_keep(pi_times(1.0))
    }
    fn tau() -> Sym {
        rnd_keep(pi_times(2.0))
    }
    fn frac_pi_2() -> Sym {
        rnd_keep(pi_times(0.5))
    }
    fn frac_pi_4() -> Sym {
        rnd_keep(pi_times(0.25))
    }
    fn abs_epsilon() -> Sym {
        L(1e-6f32 as f64)
    }
    fn rel_epsilon() -> Sym {
        L(1e-4f32 as f64)
    }
    fn pi_lower() -> Sym {
        pi_bound("pi1_lower")
    }
    fn pi_upper() -> Sym {
        pi_bound("pi1_upper")
    }
    fn tau_lower() -> Sym {
        pi_bound("pi2_lower")
    }
    fn tau_upper() -> Sym {
        pi_bound("pi2_upper")
    }
    fn frac_pi_2_lower() -> Sym {
        pi_bound("pih_lower")
    }
    fn frac_pi_2_upper() -> Sym {
        pi_bound("pih_upper")
    }
    fn frac_pi_4_lower() -> Sym {
        pi_bound("piq_lower")
    }
    fn frac_pi_4_upper() -> Sym {
        pi_bound("piq_upper")
    }
    fn sqrt(self) -> Sym {
        c_sqrt(self)
    }
    fn sin(self) -> Sym {
        c_fun("sin", &[self])
    }
    fn cos(self) -> Sym {
        c_fun("cos", &[self])
    }
    fn sin_cos(self) -> (Sym, Sym) {
        (Sym::sin(self), Sym::cos(self))
    }
    fn tan(self) -> Sym {
        c_fun("tan", &[self])
    }
    fn asin(self) -> Sym {
        c_fun("asin", &[self])
    }
    fn acos(self) -> Sym {
        c_fun("acos", &[self])
    }
    fn atan(self) -> Sym {
        c_fun("atan", &[self])
    }
    fn atan2(self, x: Sym) -> Sym {
        c_fun("atan2", &[self, x])
    }
}
impl crate::math::scalar::AlmostEqual for Sym {
    fn almost_eq(self, o: Sym) -> bool {
        crate::math::scalar::GFloat::fequals(self, o)
    }
}

// ------------------------------------------------- specification language ---
/// A mathematical real in a specification (never rounded, never forks).
#[derive(Clone, Copy)]
pub struct X(pub Sym);
impl From<Sym> for X {
    fn from(s: Sym) -> X {
        X(s)
    }
}
impl From<f64> for X {
    fn from(s: f64) -> X {
        X(L(s))
    }
}
impl std::fmt::Debug for X {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
macro_rules! xop {
    ($tr:ident, $m:ident, $f:path) => {
        impl<T: Into<X>> std::ops::$tr<T> for X {
            type Output = X;
            fn $m(self, o: T) -> X {
                let o: X = o.into();
                if self.0.special() || o.0.special() {
                    // a specification over a non-finite result: value NaN makes
                    // every comparison false
                    return X(L(f64::NAN));
                }
                X($f(self.0, o.0))
            }
        }
    };
}
xop!(Add, add, t_add);
xop!(Sub, sub, t_sub);
xop!(Mul, mul, t_mul);
xop!(Div, div, t_div);
impl std::ops::Neg for X {
    type Output = X;
    fn neg(self) -> X {
        X(t_neg(self.0))
    }
}
impl X {
    pub fn pi() -> X {
        X(N(mk(Node::Pi)))
    }
    pub fn sq(self) -> X {
        self * self
    }
    pub fn fun(name: &'static str, args: &[X]) -> X {
        if args.iter().any(|a| a.0.special()) {
            return X(L(f64::NAN));
        }
        let a: Vec<Sym> = args.iter().map(|x| x.0).collect();
        if name == "sqrt" {
            return X(t_sqrt(a[0]));
        }
        if let [L(x)] = a[..] {
            if x == 0.0 {
                match name {
                    "sin" | "tan" | "asin" | "atan" => return X(L(0.0)),
                    "cos" => return X(L(1.0)),
                    _ => {}
                }
            }
            if x == 1.0 && name == "acos" {
                return X(L(0.0));
            }
        }
        X(t_fun(name, &a))
    }
    pub fn min(self, o: X) -> X {
        if self.0.special() || o.0.special() {
            return X(L(f64::NAN));
        }
        let (i, j) = (self.0.id(), o.0.id());
        if i == j {
            return self;
        }
        X(N(mk(Node::Min(i, j))))
    }
    pub fn max(self, o: X) -> X {
        if self.0.special() || o.0.special() {
            return X(L(f64::NAN));
        }
        let (i, j) = (self.0.id(), o.0.id());
        if i == j {
            return self;
        }
        X(N(mk(Node::Max(i, j))))
    }
    pub fn abs(self) -> X {
        if let L(x) = self.0 {
            return X(L(x.abs()));
        }
        X(N(mk(Node::Abs(self.0.id()))))
    }
    /// the value a correctly rounded operation returns for this real (Rounded mode)
    pub fn rounded(self) -> X {
        X(rnd(self.0))
    }
    /// next float up/down (Rounded mode)
    pub fn up(self) -> X {
        X(up(self.0))
    }
    pub fn down(self) -> X {
        X(down(self.0))
    }
    pub fn ite(c: B, a: X, b: X) -> X {
        match bnode(c.0) {
            BNode::True => a,
            BNode::False => b,
            _ => {
                if a.0.special() || b.0.special() {
                    return X(L(f64::NAN));
                }
                X(N(mk(Node::Ite(c.0, a.0.id(), b.0.id()))))
            }
        }
    }
}

impl B {
    pub fn t() -> B {
        B(mkb(BNode::True))
    }
    pub fn f() -> B {
        B(mkb(BNode::False))
    }
    pub fn c(b: bool) -> B {
        if b {
            B::t()
        } else {
            B::f()
        }
    }
    pub fn var(name: &str) -> B {
        B(mkb(BNode::Var(name.to_string())))
    }
    pub fn not(self) -> B {
        match bnode(self.0) {
            BNode::True => B::f(),
            BNode::False => B::t(),
            BNode::Not(x) => B(x),
            _ => B(mkb(BNode::Not(self.0))),
        }
    }
    pub fn and(self, o: B) -> B {
        all(&[self, o])
    }
    pub fn or(self, o: B) -> B {
        any(&[self, o])
    }
    pub fn implies(self, o: B) -> B {
        any(&[self.not(), o])
    }
    pub fn iff(self, o: B) -> B {
        self.implies(o).and(o.implies(self))
    }
}
pub fn all(bs: &[B]) -> B {
    let mut v = vec![];
    for b in bs {
        match bnode(b.0) {
            BNode::True => {}
            BNode::False => return B::f(),
            BNode::And(xs) => v.extend(xs),
            _ => v.push(b.0),
        }
    }
    match v.len() {
        0 => B::t(),
        1 => B(v[0]),
        _ => B(mkb(BNode::And(v))),
    }
}
pub fn any(bs: &[B]) -> B {
    let mut v = vec![];
    for b in bs {
        match bnode(b.0) {
            BNode::False => {}
            BNode::True => return B::t(),
            BNode::Or(xs) => v.extend(xs),
            _ => v.push(b.0),
        }
    }
    match v.len() {
        0 => B::f(),
        1 => B(v[0]),
        _ => B(mkb(BNode::Or(v))),
    }
}
fn x_cmp(a: X, b: X, allow: u8) -> B {
    let (a, b) = (a.0, b.0);
    if a.isnan() || b.isnan() {
        return B::f();
    }
    if a.special() || b.special() {
        let o = if litval(a) < litval(b) {
            LT
        } else if litval(a) > litval(b) {
            GT
        } else {
            EQ
        };
        return B::c(o & allow != 0);
    }
    let (i, j) = (a.id(), b.id());
    if i == j {
        return B::c(allow & EQ != 0);
    }
    if let (Some(x), Some(y)) = (const_val(i), const_val(j)) {
        let o = if x < y {
            LT
        } else if x > y {
            GT
        } else {
            EQ
        };
        return B::c(o & allow != 0);
    }
    B(cmp_node(i, j, allow))
}
pub fn eq(a: impl Into<X>, b: impl Into<X>) -> B {
    x_cmp(a.into(), b.into(), EQ)
}
pub fn ne(a: impl Into<X>, b: impl Into<X>) -> B {
    eq(a, b).not()
}
pub fn le(a: impl Into<X>, b: impl Into<X>) -> B {
    x_cmp(a.into(), b.into(), LT | EQ)
}
pub fn lt(a: impl Into<X>, b: impl Into<X>) -> B {
    x_cmp(a.into(), b.into(), LT)
}
pub fn ge(a: impl Into<X>, b: impl Into<X>) -> B {
    le(b, a)
}
pub fn gt(a: impl Into<X>, b: impl Into<X>) -> B {
    lt(b, a)
}

/// assume a formula on this path; also teaches the fork oracle
pub fn assume(b: B) {
    match bnode(b.0) {
        BNode::True => return,
        BNode::False => std::panic::panic_any(PathAbort),
        BNode::And(xs) => {
            for x in xs {
                assume(B(x));
            }
            return;
        }
        _ => {}
    }
    st(|s| s.assume.push(b.0));
    let (pos, n) = match bnode(b.0) {
        BNode::Not(x) => (false, bnode(x)),
        n => (true, n),
    };
    let (x, y, m) = match n {
        BNode::Lt(x, y) => (x, y, LT),
        BNode::Le(x, y) => (x, y, LT | EQ),
        BNode::Eq(x, y) => (x, y, EQ),
        _ => {
            match bnode(b.0) {
                BNode::Not(x) => st(|s| s.bfacts.insert(x, false)),
                _ => st(|s| s.bfacts.insert(b.0, true)),
            };
            return;
        }
    };
    set_fact(x, y, if pos { m } else { 7 & !m });
}

/// run f, then forget everything it assumed (its obligations stay)
pub fn scoped(f: impl FnOnce()) {
    let saved = st(|s| (s.assume.clone(), s.facts.clone(), s.bfacts.clone()));
    f();
    st(|s| {
        s.assume = saved.0;
        s.facts = saved.1;
        s.bfacts = saved.2;
    });
}

pub fn oblige(kind: &'static str, name: &str, goal: B) {
    st(|s| {
        let o = Obligation {
            name: name.to_string(),
            kind,
            assume: s.assume.clone(),
            goal: goal.0,
            hide: false,
            path: s.path,
            tags: s.tags.clone(),
        };
        s.obligations.push(o);
    });
}
