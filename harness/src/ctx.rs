use crate::contracts::all_contracts;
use scarlet::math::scalar::Float;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// exact real arithmetic extended with IEEE inf/NaN
    Exact,
    /// arithmetic with unspecified round-to-nearest
    Rounded,
}

pub struct Contract {
    pub prop: &'static str,
    pub name: &'static str,
    pub mode: Mode,
    /// functions of the library this contract specifies
    pub covers: &'static [&'static str],
    pub run: fn(&mut Ctx),
}

// ============================================================ symbolic build
#[cfg(scarlet_verif)]
pub use sym_impl::*;
#[cfg(scarlet_verif)]
mod sym_impl {
    use super::*;
    pub use scarlet::verif::{all, any, eq, ge, gt, le, lt, ne, B, X};
    use scarlet::verif::{self as v, Sym};
    use std::fmt::Write;

    /// scalar for generic code under exact arithmetic
    pub type R = Sym;
    /// scalar for generic code under rounded arithmetic
    pub type RF = Sym;

    pub struct Ctx {}

    impl Ctx {
        pub fn r(&mut self, name: &str) -> Sym {
            Sym::var(name)
        }
        pub fn f(&mut self, name: &str) -> Sym {
            Sym::var(name)
        }
        pub fn f_ge(&mut self, name: &str, _lo: impl Into<X>) -> Sym {
            self.f(name)
        }
        pub fn f_in(&mut self, name: &str, _lo: f64, _hi: f64) -> Sym {
            self.f(name)
        }
        pub fn rf(&mut self, name: &str) -> Sym {
            Sym::var(name)
        }
        pub fn rf_ge(&mut self, name: &str, _lo: Sym) -> Sym {
            self.rf(name)
        }
        pub fn ghost(&mut self, name: &str) -> X {
            X(Sym::var(&format!("real_{}", name)))
        }
        /// a mathematical real in [lo, hi]
        pub fn between(&mut self, name: &str, lo: impl Into<X>, hi: impl Into<X>) -> X {
            let x = self.ghost(name);
            v::assume(le(lo, x));
            v::assume(le(x, hi));
            x
        }
        pub fn pick(&mut self, name: &str, n: usize) -> usize {
            for i in 0..n - 1 {
                if v::decide(B::var(&format!("pick_{}_{}", name, i))) {
                    v::ST.with(|s| s.borrow_mut().tags.push(format!("{}={}", name, i)));
                    return i;
                }
            }
            v::ST.with(|s| s.borrow_mut().tags.push(format!("{}={}", name, n - 1)));
            n - 1
        }
        pub fn require(&mut self, b: B) {
            v::assume(b);
        }
        pub fn ensure(&mut self, name: &str, b: B) {
            v::oblige("ensures", name, b);
        }
        /// prove, then use
        pub fn lemma(&mut self, name: &str, b: B) {
            v::oblige("lemma", name, b);
            v::assume(b);
        }
        /// name a term: what the code computes with this value becomes this term
        /// (each time with an obligation that it is the same value)
        pub fn name(&mut self, a: X) {
            v::canon(a);
        }
        /// the code's computations of `seen` become `to`; proved equal first
        pub fn alias(&mut self, name: &str, seen: X, to: X) {
            self.lemma(name, eq(seen, to));
            v::alias(seen, to);
        }
        /// a fresh name for a value: what the code computes with this value becomes
        /// the name, of which only transferred facts are known
        pub fn opaque(&mut self, name: &str, a: X) -> X {
            if let Sym::L(_) = a.0 {
                return a;
            }
            let n = X(Sym::var(&format!("let_{}", name)));
            v::alias(a, n);
            n
        }
        /// the index of the term that v is (a guess the obligations then check)
        pub fn closest(&mut self, v: X, to: &[X]) -> usize {
            to.iter().position(|t| v::same(v, *t)).unwrap_or(0)
        }
        /// f holds of the values, so it holds of the names
        pub fn transfer(&mut self, name: &str, values: &[X], names: &[X], f: impl Fn(&[X]) -> B) {
            v::oblige("lemma", name, f(values));
            v::assume(f(names));
        }
        /// l = r because l - r is the given combination of assumed equations
        /// (multiplier, left side, right side)
        pub fn ensure_by(&mut self, name: &str, l: X, r: X, comb: &[(X, X, X)]) {
            self.by("ensures", name, l, r, comb)
        }
        pub fn lemma_by(&mut self, name: &str, l: X, r: X, comb: &[(X, X, X)]) {
            self.by("lemma", name, l, r, comb);
            v::assume(eq(l, r));
        }
        fn by(&mut self, kind: &'static str, name: &str, l: X, r: X, comb: &[(X, X, X)]) {
            let mut s = X::from(0.0);
            for (m, a, b) in comb {
                v::oblige(kind, &format!("{} (equation used)", name), eq(*a, *b));
                s = s + *m * (*a - *b);
            }
            // proved without the path's equations: a polynomial identity
            v::oblige(kind, name, eq(l - r, s));
        }
        /// prove each goal using the facts that `with` assumes, then use the goals
        /// without those facts (no forking inside `with`)
        pub fn lemmas_by(&mut self, with: impl FnOnce(&mut Ctx), goals: &[(&str, B)]) {
            let mut me = Ctx {};
            v::scoped(|| {
                with(&mut me);
                for (n, g) in goals {
                    v::oblige("lemma", n, *g);
                }
            });
            for (_, g) in goals {
                v::assume(*g);
            }
        }
        /// instance of a fact about the mathematical functions that the solver is
        /// not given (listed in DESIGN.md, proved in Coq where stated there)
        pub fn fact(&mut self, _name: &str, b: B) {
            v::assume(b);
        }
        pub fn split(&mut self, b: B) -> bool {
            v::decide(b)
        }
        /// solver hint: include an optional axiom group
        pub fn flag(&mut self, f: &str) {
            v::ST.with(|s| {
                let mut s = s.borrow_mut();
                if !s.flags.iter().any(|x| x == f) {
                    s.flags.push(f.to_string());
                }
            });
        }
        /// a two-sided inverse of m: fresh entries, with m mi = mi m = 1 assumed
        fn inv(&mut self, name: &str, m: [[Sym; 4]; 4], affine: bool) -> [[Sym; 4]; 4] {
            let lit = |a: f64| Sym::L(a);
            let mi: [[Sym; 4]; 4] = std::array::from_fn(|i| {
                std::array::from_fn(|j| {
                    if affine && i == 3 {
                        lit(if j == 3 { 1.0 } else { 0.0 })
                    } else {
                        Sym::var(&format!("{}{}{}", name, i, j))
                    }
                })
            });
            for i in 0..4 {
                for j in 0..4 {
                    for (a, b) in [(&m, &mi), (&mi, &m)] {
                        let mut s = X::from(0.0);
                        for l in 0..4 {
                            s = s + X::from(a[i][l]) * X::from(b[l][j]);
                        }
                        v::assume(eq(s, if i == j { 1.0 } else { 0.0 }));
                    }
                }
            }
            mi
        }
        pub fn inv_r(&mut self, name: &str, m: [[R; 4]; 4], affine: bool) -> [[R; 4]; 4] {
            self.inv(name, m, affine)
        }
        pub fn inv_f(&mut self, name: &str, m: [[Float; 4]; 4], affine: bool) -> [[Float; 4]; 4] {
            self.inv(name, m, affine)
        }
        pub fn positive_zero_only(&mut self) {
            v::ST.with(|s| s.borrow_mut().negzero = false);
        }
    }

    fn js(s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                c if (c as u32) < 32 => o.push(' '),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }

    fn run_contract(c: &Contract, max_paths: usize) -> String {
        v::reset(match c.mode {
            Mode::Exact => v::Mode::Exact,
            Mode::Rounded => v::Mode::Rounded,
        });
        v::ST.with(|s| s.borrow_mut().negzero = true);
        let mut script: Vec<bool> = vec![];
        let mut paths = 0usize;
        let mut aborted = 0usize;
        let mut error: Option<String> = None;
        loop {
            v::begin_path(script.clone());
            v::ST.with(|s| s.borrow_mut().path = paths);
            let run = c.run;
            let r = std::panic::catch_unwind(move || {
                let mut cx = Ctx {};
                run(&mut cx);
            });
            paths += 1;
            if let Err(e) = r {
                if e.downcast_ref::<v::PathAbort>().is_some() {
                    aborted += 1;
                    if let Some(u) = v::ST.with(|s| s.borrow().unsupported.clone()) {
                        error = Some(format!("unsupported construct: {}", u));
                        break;
                    }
                } else {
                    let msg = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_else(|| "panic".into());
                    v::oblige("no-panic", &format!("no panic ({})", msg), B::f());
                }
            }
            // backtrack
            let (mut s, pos) = v::ST.with(|s| {
                let s = s.borrow();
                (s.script.clone(), s.pos)
            });
            s.truncate(pos);
            while let Some(x) = s.pop() {
                if x {
                    s.push(false);
                    break;
                }
            }
            if s.is_empty() {
                break;
            }
            script = s;
            if paths >= max_paths {
                error = Some(format!("more than {} paths", max_paths));
                break;
            }
        }
        v::ST.with(|s| {
            let s = s.borrow();
            let mut o = String::new();
            let _ = write!(
                o,
                "{{\"contract\":{},\"prop\":{},\"mode\":{},\"covers\":[{}],\"paths\":{},\"aborted\":{},\"error\":{},\"flags\":[{}],\n\"nodes\":[",
                js(c.name), js(c.prop), js(&format!("{:?}", c.mode)),
                c.covers.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
                paths, aborted,
                error.as_ref().map(|e| js(e)).unwrap_or("null".into()),
                s.flags.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")
            );
            for (i, n) in s.arena.nodes.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                use v::Node::*;
                let _ = match n {
                    Const(b) => write!(o, "[\"const\",\"{:e}\"]", Exactf(f64::from_bits(*b))),
                    Pi => write!(o, "[\"pi\"]"),
                    Var(x) => write!(o, "[\"var\",{}]", js(x)),
                    Add(a, b) => write!(o, "[\"add\",{},{}]", a, b),
                    Sub(a, b) => write!(o, "[\"sub\",{},{}]", a, b),
                    Mul(a, b) => write!(o, "[\"mul\",{},{}]", a, b),
                    Div(a, b) => write!(o, "[\"div\",{},{}]", a, b),
                    Neg(a) => write!(o, "[\"neg\",{}]", a),
                    Min(a, b) => write!(o, "[\"min\",{},{}]", a, b),
                    Max(a, b) => write!(o, "[\"max\",{},{}]", a, b),
                    Abs(a) => write!(o, "[\"abs\",{}]", a),
                    Sqrt(a) => write!(o, "[\"sqrt\",{}]", a),
                    Fun(f, a) => write!(
                        o, "[\"fun\",{}{}]", js(f),
                        a.iter().map(|x| format!(",{}", x)).collect::<String>()
                    ),
                    Rnd(a) => write!(o, "[\"rnd\",{}]", a),
                    Up(a) => write!(o, "[\"up\",{}]", a),
                    Down(a) => write!(o, "[\"down\",{}]", a),
                    Ite(b, x, y) => write!(o, "[\"ite\",{},{},{}]", b, x, y),
                };
            }
            o.push_str("],\n\"bnodes\":[");
            for (i, n) in s.arena.bnodes.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                use v::BNode::*;
                let _ = match n {
                    True => write!(o, "[\"true\"]"),
                    False => write!(o, "[\"false\"]"),
                    Var(x) => write!(o, "[\"bvar\",{}]", js(x)),
                    Lt(a, b) => write!(o, "[\"lt\",{},{}]", a, b),
                    Le(a, b) => write!(o, "[\"le\",{},{}]", a, b),
                    Eq(a, b) => write!(o, "[\"eq\",{},{}]", a, b),
                    Not(a) => write!(o, "[\"not\",{}]", a),
                    And(a) => write!(o, "[\"and\"{}]", a.iter().map(|x| format!(",{}", x)).collect::<String>()),
                    Or(a) => write!(o, "[\"or\"{}]", a.iter().map(|x| format!(",{}", x)).collect::<String>()),
                };
            }
            o.push_str("],\n\"obligations\":[");
            for (i, ob) in s.obligations.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                let _ = write!(
                    o,
                    "{{\"name\":{},\"kind\":{},\"path\":{},\"goal\":{},\"tags\":[{}],\"assume\":{:?}}}\n",
                    js(&ob.name), js(ob.kind), ob.path, ob.goal,
                    ob.tags.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
                    ob.assume
                );
            }
            o.push_str("]}\n");
            o
        })
    }

    struct Exactf(f64);
    impl std::fmt::LowerExp for Exactf {
        // hex mantissa/exponent: exact
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            let b = self.0.to_bits();
            let neg = b >> 63 != 0;
            let e = ((b >> 52) & 0x7ff) as i64;
            let m = b & ((1u64 << 52) - 1);
            let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
            write!(f, "{}{}p{}", if neg { "-" } else { "" }, m, e)
        }
    }

    pub fn dump(prop: &str, dir: &str) {
        let max_paths = 40000;
        let mut hs = vec![];
        for c in all_contracts() {
            if prop != "all" && c.prop != prop && c.name != prop {
                continue;
            }
            let dir = dir.to_string();
            hs.push(
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || {
                        let s = run_contract(&c, max_paths);
                        std::fs::write(format!("{}/{}.json", dir, c.name), s).unwrap();
                    })
                    .unwrap(),
            );
        }
        let n = hs.len();
        for h in hs {
            h.join().expect("contract thread");
        }
        println!("dumped {} contracts", n);
    }
}

// ============================================================ concrete build
#[cfg(not(scarlet_verif))]
pub use conc_impl::*;
#[cfg(not(scarlet_verif))]
mod conc_impl {
    use super::*;
    use std::cell::Cell;
    use std::collections::HashMap;

    pub type R = f64;
    pub type RF = f32;

    thread_local! { static TOL: Cell<f64> = Cell::new(1e-9); }

    #[derive(Clone, Copy, Debug)]
    pub struct X(pub f64);
    impl From<f64> for X {
        fn from(x: f64) -> X {
            X(x)
        }
    }
    impl From<f32> for X {
        fn from(x: f32) -> X {
            X(x as f64)
        }
    }
    macro_rules! xop {
        ($tr:ident, $m:ident, $o:tt) => {
            impl<T: Into<X>> std::ops::$tr<T> for X {
                type Output = X;
                fn $m(self, o: T) -> X {
                    X(self.0 $o o.into().0)
                }
            }
        };
    }
    xop!(Add, add, +);
    xop!(Sub, sub, -);
    xop!(Mul, mul, *);
    xop!(Div, div, /);
    impl std::ops::Neg for X {
        type Output = X;
        fn neg(self) -> X {
            X(-self.0)
        }
    }
    impl X {
        pub fn pi() -> X {
            X(std::f64::consts::PI)
        }
        pub fn sq(self) -> X {
            X(self.0 * self.0)
        }
        pub fn fun(name: &'static str, a: &[X]) -> X {
            X(match name {
                "sqrt" => a[0].0.max(0.0).sqrt(),
                "sin" => a[0].0.sin(),
                "cos" => a[0].0.cos(),
                "tan" => a[0].0.tan(),
                "asin" => a[0].0.asin(),
                "acos" => a[0].0.acos(),
                "atan" => a[0].0.atan(),
                "atan2" => a[0].0.atan2(a[1].0),
                _ => f64::NAN,
            })
        }
        pub fn min(self, o: X) -> X {
            X(self.0.min(o.0))
        }
        pub fn max(self, o: X) -> X {
            X(self.0.max(o.0))
        }
        pub fn abs(self) -> X {
            X(self.0.abs())
        }
        pub fn rounded(self) -> X {
            X((self.0 as f32) as f64)
        }
        pub fn up(self) -> X {
            X((self.0 as f32).next_up() as f64)
        }
        pub fn down(self) -> X {
            X((self.0 as f32).next_down() as f64)
        }
        pub fn ite(c: B, a: X, b: X) -> X {
            if c.0 == Tri::F {
                b
            } else {
                a
            }
        }
    }

    /// three-valued truth: comparisons within the tolerance are undecided
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Tri {
        T,
        F,
        U,
    }
    use Tri::{F, T, U};
    #[derive(Clone, Copy, Debug)]
    pub struct B(pub Tri);
    impl B {
        pub fn t() -> B {
            B(T)
        }
        pub fn f() -> B {
            B(F)
        }
        pub fn c(b: bool) -> B {
            B(if b { T } else { F })
        }
        pub fn not(self) -> B {
            B(match self.0 {
                T => F,
                F => T,
                U => U,
            })
        }
        pub fn and(self, o: B) -> B {
            all(&[self, o])
        }
        pub fn or(self, o: B) -> B {
            any(&[self, o])
        }
        pub fn implies(self, o: B) -> B {
            any(&[self.not(), o])
        }
        pub fn iff(self, o: B) -> B {
            self.implies(o).and(o.implies(self))
        }
    }
    pub fn all(bs: &[B]) -> B {
        if bs.iter().any(|b| b.0 == F) {
            B(F)
        } else if bs.iter().all(|b| b.0 == T) {
            B(T)
        } else {
            B(U)
        }
    }
    pub fn any(bs: &[B]) -> B {
        if bs.iter().any(|b| b.0 == T) {
            B(T)
        } else if bs.iter().all(|b| b.0 == F) {
            B(F)
        } else {
            B(U)
        }
    }
    thread_local! {
        /// close runs: the comparisons made so far (difference, magnitude), and what
        /// each is allowed to be off by
        static SEEN: std::cell::RefCell<Vec<(f64, f64)>> = const { std::cell::RefCell::new(vec![]) };
        static ALLOWED: std::cell::RefCell<Option<Vec<f64>>> = const { std::cell::RefCell::new(None) };
        static CLOSE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    }
    fn slack(a: f64, b: f64) -> f64 {
        if CLOSE.with(|c| c.get()) {
            let fin = a.is_finite() && b.is_finite();
            let i = SEEN.with(|s| {
                let mut s = s.borrow_mut();
                s.push(if fin { (a - b, a.abs() + b.abs()) } else { (0.0, 0.0) });
                s.len() - 1
            });
            if !fin {
                return 0.0;
            }
            return ALLOWED.with(|s| s.borrow().as_ref().map_or(0.0, |v| v.get(i).copied().unwrap_or(f64::MAX)));
        }
        if !a.is_finite() || !b.is_finite() {
            return 0.0;
        }
        TOL.with(|t| {
            let t = t.get();
            if t >= 0.0 {
                t * (1.0 + a.abs() + b.abs())
            } else {
                // purely relative (rounded contracts)
                -t * (a.abs() + b.abs())
            }
        })
    }
    pub fn eq(a: impl Into<X>, b: impl Into<X>) -> B {
        let (a, b) = (a.into().0, b.into().0);
        if a.is_nan() || b.is_nan() {
            return B(F);
        }
        let s = slack(a, b);
        if a == b {
            return B(T);
        }
        B(if (a - b).abs() > s { F } else { U })
    }
    pub fn ne(a: impl Into<X>, b: impl Into<X>) -> B {
        eq(a, b).not()
    }
    pub fn le(a: impl Into<X>, b: impl Into<X>) -> B {
        let (a, b) = (a.into().0, b.into().0);
        if a.is_nan() || b.is_nan() {
            return B(F);
        }
        let s = slack(a, b);
        B(if a <= b - s {
            T
        } else if a > b + s {
            F
        } else if a == b {
            T
        } else {
            U
        })
    }
    pub fn lt(a: impl Into<X>, b: impl Into<X>) -> B {
        let (a, b) = (a.into().0, b.into().0);
        if a.is_nan() || b.is_nan() {
            return B(F);
        }
        let s = slack(a, b);
        B(if a < b - s {
            T
        } else if a > b + s {
            F
        } else if a == b {
            F
        } else {
            U
        })
    }
    pub fn ge(a: impl Into<X>, b: impl Into<X>) -> B {
        le(b, a)
    }
    pub fn gt(a: impl Into<X>, b: impl Into<X>) -> B {
        lt(b, a)
    }

    pub struct Reject;

    pub struct Ctx {
        fixed: HashMap<String, f64>,
        random: bool,
        rng: u64,
        style: u32,
        pub drawn: Vec<(String, f64)>,
        pub failed: Vec<String>,
        pub undecided: usize,
        pub evaluated: usize,
        past_requires: bool,
        wide: bool,
        scale: f64,
        picks: Vec<String>,
    }

    impl Ctx {
        fn next(&mut self) -> u64 {
            // splitmix64
            self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.rng;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        fn unit(&mut self) -> f64 {
            (self.next() >> 11) as f64 / (1u64 << 53) as f64
        }
        fn draw(&mut self, name: &str, single: bool) -> f64 {
            if let Some((_, v)) = self.drawn.iter().find(|(n, _)| n == name) {
                return *v;
            }
            let v = if let Some(v) = self.fixed.get(name) {
                *v
            } else if self.random {
                let k = self.next();
                if (k >> 40) % 16 == 0 && !self.drawn.is_empty() {
                    // ties
                    let (_, w) = self.drawn[(k >> 8) as usize % self.drawn.len()];
                    if (k >> 50) % 2 == 0 || w == 0.0 { w } else { -w }
                } else if self.wide && (k >> 44) % 4 == 0 {
                    (self.unit() * 2.0 - 1.0) * 2f64.powi((k >> 8) as i32 % 40 - 20)
                } else {
                    match (self.style + (k % 3) as u32) % 6 {
                        0 => ((k >> 8) % 9) as f64 - 4.0,
                        1 => (((k >> 8) % 65) as f64 - 32.0) / 8.0,
                        2 => self.unit() * 4.0 - 2.0,
                        3 => self.unit(),
                        4 => [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0][((k >> 8) % 8) as usize],
                        _ => (self.unit() * 2.0 - 1.0) * 20.0,
                    }
                }
            } else {
                0.0
            };
            let v = if self.scale != 1.0 && self.random && !self.fixed.contains_key(name) { v * self.scale } else { v };
            let v = if single && !CLOSE.with(|c| c.get()) { (v as f32) as f64 } else { v };
            self.drawn.push((name.to_string(), v));
            v
        }
        pub fn r(&mut self, name: &str) -> f64 {
            self.draw(name, false)
        }
        pub fn f(&mut self, name: &str) -> Float {
            self.draw(name, true) as Float
        }
        /// a value that random draws keep at or above lo (a hint: `require` decides)
        pub fn f_ge(&mut self, name: &str, lo: impl Into<X>) -> Float {
            let lo = lo.into().0;
            let v = self.draw(name, true);
            if self.random && v < lo {
                return self.redraw(name, lo + (v - lo).abs().min(v.abs() + 0.25));
            }
            v as Float
        }
        pub fn f_in(&mut self, name: &str, lo: f64, hi: f64) -> Float {
            let v = self.draw(name, true);
            if self.random && !(lo <= v && v <= hi) {
                let w = (v.abs() / (hi - lo)).fract();
                return self.redraw(name, lo + w * (hi - lo));
            }
            v as Float
        }
        fn redraw(&mut self, name: &str, v: f64) -> Float {
            let v = (v as f32) as f64;
            for e in self.drawn.iter_mut() {
                if e.0 == name {
                    e.1 = v;
                }
            }
            v as Float
        }
        pub fn rf(&mut self, name: &str) -> f32 {
            self.draw(name, true) as f32
        }
        pub fn rf_ge(&mut self, name: &str, lo: f32) -> f32 {
            self.f_ge(name, lo) as f32
        }
        pub fn ghost(&mut self, name: &str) -> X {
            X(self.draw(&format!("real_{}", name), false))
        }
        pub fn between(&mut self, name: &str, lo: impl Into<X>, hi: impl Into<X>) -> X {
            let (lo, hi) = (lo.into(), hi.into());
            let key = format!("real_{}", name);
            if let Some(v) = self.fixed.get(&key).copied() {
                let v = v.max(lo.0).min(hi.0);
                self.drawn.push((key, v));
                return X(v);
            }
            if !(lo.0 <= hi.0) {
                std::panic::panic_any(Reject);
            }
            let u = match self.next() % 4 {
                0 => 0.0,
                1 => 1.0,
                _ => self.unit(),
            };
            let v = if u == 1.0 { hi.0 } else { (lo.0 + u * (hi.0 - lo.0)).max(lo.0).min(hi.0) };
            self.drawn.push((key, v));
            X(v)
        }
        pub fn pick(&mut self, name: &str, n: usize) -> usize {
            self.picks.push(name.to_string());
            if let Some(v) = self.fixed.get(name) {
                let v = *v as usize;
                self.drawn.push((name.to_string(), v as f64));
                return v.min(n - 1);
            }
            let v = (self.next() % n as u64) as usize;
            self.drawn.push((name.to_string(), v as f64));
            v
        }
        pub fn require(&mut self, b: B) {
            if b.0 != T {
                std::panic::panic_any(Reject);
            }
        }
        pub fn ensure(&mut self, name: &str, b: B) {
            self.past_requires = true;
            self.evaluated += 1;
            match b.0 {
                F => self.failed.push(name.to_string()),
                U => self.undecided += 1,
                T => {}
            }
        }
        pub fn lemma(&mut self, _name: &str, _b: B) {}
        pub fn name(&mut self, _a: X) {}
        pub fn closest(&mut self, v: X, to: &[X]) -> usize {
            let d: Vec<f64> = to.iter().map(|t| (t.0 - v.0).abs()).collect();
            (0..d.len()).min_by(|&i, &j| d[i].partial_cmp(&d[j]).unwrap_or(std::cmp::Ordering::Equal)).unwrap()
        }
        pub fn opaque(&mut self, _name: &str, a: X) -> X {
            a
        }
        pub fn transfer(&mut self, _name: &str, _v: &[X], _n: &[X], _f: impl Fn(&[X]) -> B) {}
        pub fn alias(&mut self, _name: &str, _seen: X, _to: X) {}
        pub fn ensure_by(&mut self, name: &str, l: X, r: X, _comb: &[(X, X, X)]) {
            self.ensure(name, eq(l, r))
        }
        pub fn lemma_by(&mut self, _name: &str, _l: X, _r: X, _comb: &[(X, X, X)]) {}
        pub fn lemmas_by(&mut self, _with: impl FnOnce(&mut Ctx), _goals: &[(&str, B)]) {}
        pub fn fact(&mut self, _name: &str, _b: B) {}
        pub fn split(&mut self, b: B) -> bool {
            if b.0 == U {
                std::panic::panic_any(Reject);
            }
            b.0 == T
        }
        pub fn flag(&mut self, _f: &str) {}
        fn inv(m: [[f64; 4]; 4]) -> [[f64; 4]; 4] {
            // Gauss-Jordan with pivoting; badly conditioned matrices are rejected
            let mut a = m;
            let mut b: [[f64; 4]; 4] = std::array::from_fn(|i| std::array::from_fn(|j| if i == j { 1.0 } else { 0.0 }));
            for c in 0..4 {
                let p = (c..4).max_by(|&i, &j| a[i][c].abs().partial_cmp(&a[j][c].abs()).unwrap_or(std::cmp::Ordering::Equal)).unwrap();
                if !(a[p][c].abs() > 0.1) {
                    std::panic::panic_any(Reject);
                }
                a.swap(c, p);
                b.swap(c, p);
                let d = a[c][c];
                for j in 0..4 {
                    a[c][j] /= d;
                    b[c][j] /= d;
                }
                for i in 0..4 {
                    if i != c {
                        let f = a[i][c];
                        for j in 0..4 {
                            a[i][j] -= f * a[c][j];
                            b[i][j] -= f * b[c][j];
                        }
                    }
                }
            }
            b
        }
        pub fn inv_r(&mut self, _name: &str, m: [[R; 4]; 4], _affine: bool) -> [[R; 4]; 4] {
            Self::inv(m)
        }
        pub fn inv_f(&mut self, _name: &str, m: [[Float; 4]; 4], _affine: bool) -> [[Float; 4]; 4] {
            Self::inv(m.map(|r| r.map(|e| e as f64))).map(|r| r.map(|e| e as Float))
        }
        pub fn positive_zero_only(&mut self) {}
    }

    fn find(name: &str) -> Contract {
        for c in all_contracts() {
            if c.name == name {
                return c;
            }
        }
        eprintln!("no contract {}", name);
        std::process::exit(2);
    }

    enum Outcome {
        Rejected,
        Held,
        Failed(Vec<String>),
    }

    fn exec(c: &Contract, cx: &mut Ctx) -> Outcome {
        TOL.with(|t| {
            t.set(match c.mode {
                Mode::Exact => {
                    if cfg!(not(scarlet_verif_f64)) && c.covers.iter().any(|f| f.starts_with("f32:")) {
                        2e-3
                    } else {
                        1e-7
                    }
                }
                Mode::Rounded => -1e-13,
            })
        });
        let run = c.run;
        let p = std::panic::AssertUnwindSafe(&mut *cx);
        let r = std::panic::catch_unwind(move || {
            let p = p;
            run(p.0)
        });
        match r {
            Ok(()) => {
                if cx.failed.is_empty() {
                    Outcome::Held
                } else {
                    Outcome::Failed(cx.failed.clone())
                }
            }
            Err(e) => {
                if e.downcast_ref::<Reject>().is_some() {
                    if cx.failed.is_empty() {
                        Outcome::Rejected
                    } else {
                        Outcome::Failed(cx.failed.clone())
                    }
                } else {
                    let msg = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_else(|| "panic".into());
                    Outcome::Failed(vec![format!("no panic ({})", msg)])
                }
            }
        }
    }

    /// Exact contracts, double precision: is the discrepancy there, or is it rounding?
    /// Runs the contract on the input and on copies of it perturbed by about 1e-11 (equal
    /// inputs alike, zeros kept); a comparison is off only by more than 64 times what
    /// the perturbation does to it.
    fn exec_close(c: &Contract, cx: &mut Ctx) -> Outcome {
        fn once(c: &Contract, cx: &mut Ctx, allowed: Option<Vec<f64>>) -> (Outcome, Vec<(f64, f64)>) {
            SEEN.with(|s| s.borrow_mut().clear());
            ALLOWED.with(|s| *s.borrow_mut() = allowed);
            CLOSE.with(|s| s.set(true));
            let o = exec(c, cx);
            CLOSE.with(|s| s.set(false));
            (o, SEEN.with(|s| s.borrow().clone()))
        }
        let (o, base) = once(c, cx, None);
        if !matches!(o, Outcome::Failed(_)) {
            return o;
        }
        let all: HashMap<String, f64> = cx.drawn.iter().cloned().collect();
        let mut noise = vec![0.0f64; base.len()];
        for k in 1..=24u64 {
            let mut m = all.clone();
            for (n, v) in m.iter_mut() {
                if !cx.picks.contains(n) {
                    let mut h = fresh(HashMap::new(), false, v.abs().to_bits().wrapping_mul(k.wrapping_mul(2).wrapping_add(1)).wrapping_add(k), 0);
                    *v *= 1.0 + (h.unit() * 2.0 - 1.0) * 2f64.powi(-36);
                }
            }
            let mut cy = fresh(m, false, 1, 0);
            let (o, seen) = once(c, &mut cy, None);
            if !matches!(o, Outcome::Failed(_)) || seen.len() != base.len() {
                return Outcome::Rejected;
            }
            for (i, (d, _)) in seen.iter().enumerate() {
                noise[i] = noise[i].max((d - base[i].0).abs());
            }
        }
        let top = base.iter().map(|b| b.1).filter(|b| *b < 1e30).chain(all.values().map(|v| v.abs())).fold(0.0, f64::max);
        if top > 1e6 {
            return Outcome::Rejected;
        }
        let allowed = noise.iter().zip(&base).map(|(n, b)| 64.0 * n + 1e-9 * b.1 + 1e-14 * top).collect();
        let mut cz = fresh(all, false, 1, 0);
        let (o, _) = once(c, &mut cz, Some(allowed));
        o
    }

    fn fresh(fixed: HashMap<String, f64>, random: bool, seed: u64, style: u32) -> Ctx {
        Ctx {
            fixed,
            random,
            rng: seed,
            style,
            drawn: vec![],
            failed: vec![],
            undecided: 0,
            evaluated: 0,
            past_requires: false,
            wide: false,
            scale: 1.0,
            picks: vec![],
        }
    }

    fn report(cx: &Ctx, names: &[String]) {
        println!("FAILED {}", names.join("; "));
        for (k, v) in &cx.drawn {
            println!("  {}={:e}", k, v);
        }
    }

    pub fn replay(name: &str, kv: &[String], close: bool) {
        let c = find(name);
        let mut m = HashMap::new();
        for a in kv {
            if let Some((k, v)) = a.split_once('=') {
                if let Ok(v) = v.parse::<f64>() {
                    m.insert(k.to_string(), v);
                }
            }
        }
        let mut cx = fresh(m, false, 1, 0);
        match if close { exec_close(&c, &mut cx) } else { exec(&c, &mut cx) } {
            Outcome::Rejected => {
                println!("REJECTED");
                std::process::exit(3)
            }
            Outcome::Held => println!("HELD evaluated={} undecided={}", cx.evaluated, cx.undecided),
            Outcome::Failed(n) => {
                report(&cx, &n);
                std::process::exit(1)
            }
        }
    }

    /// random inputs; with given values, most variables keep theirs. Stops after
    /// `keep` failing inputs, or n tries, or `secs` seconds.
    pub fn search(name: &str, seed: u64, n: u64, secs: f64, keep: usize, kv: &[String], close: bool) {
        let c = find(name);
        let given: Vec<(String, f64)> = kv
            .iter()
            .filter_map(|a| a.split_once('=').and_then(|(k, v)| v.parse().ok().map(|v| (k.to_string(), v))))
            .collect();
        let start = std::time::Instant::now();
        let (mut held, mut rejected, mut evald, mut undec, mut tried, mut failed) = (0u64, 0u64, 0usize, 0usize, 0u64, 0usize);
        for i in 0..n {
            if start.elapsed().as_secs_f64() > secs {
                break;
            }
            tried += 1;
            let sd = seed.wrapping_mul(0x2545F4914F6CDD1D).wrapping_add(i);
            let mut cx = fresh(HashMap::new(), true, sd, (i % 6) as u32);
            cx.wide = matches!(c.mode, Mode::Rounded);
            if !given.is_empty() && i % 4 != 3 {
                let free = 1 + i % 3;
                for (k, v) in &given {
                    if cx.next() % 8 >= free {
                        cx.fixed.insert(k.clone(), *v);
                    }
                }
            }
            if close && (i / 6) % 2 == 1 {
                cx.scale = 10f64.powi(-(1 + ((i / 12) % 5) as i32));
            }
            match if close { exec_close(&c, &mut cx) } else { exec(&c, &mut cx) } {
                Outcome::Rejected => rejected += 1,
                Outcome::Held => {
                    held += 1;
                    evald += cx.evaluated;
                    undec += cx.undecided;
                }
                Outcome::Failed(names) => {
                    report(&cx, &names);
                    failed += 1;
                    if failed >= keep {
                        break;
                    }
                }
            }
        }
        println!(
            "{} tried={} held={} rejected={} evaluated={} undecided={}",
            if failed > 0 { "SOME" } else { "NONE" },
            tried, held, rejected, evald, undec
        );
        if failed > 0 {
            std::process::exit(1);
        }
    }
}
