//! Path-exploring symbolic execution core.
//!
//! The code under test is generic over its coordinate type.  It is compiled (from /repo's current
//! source) with the coordinate type `S`; every arithmetic operation on an `S` builds a term, and
//! every comparison asks this engine for a truth value.  A comparison that the solver finds both
//! ways satisfiable under the current path condition forks the execution; all feasible paths are
//! explored by re-execution.
use crate::rat::Rat;
use crate::z3::{parse_values, Res, Solver};
use std::cell::RefCell;
use crate::fast::{HashMap, HashSet};
use std::fmt::Write as _;

pub type Tid = u32;
pub type Aid = u32;

pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;

/// Reasons for unwinding out of a symbolic run.
pub enum Stop {
    /// Path condition became unsatisfiable through an assumption.
    Prune,
    /// A property assertion can be false on this path.
    Check(String),
    /// The engine cannot continue (never a verdict).
    Engine(String),
}
pub fn engine_error(msg: &str) -> ! {
    std::panic::panic_any(Stop::Engine(msg.to_string()))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// exact real arithmetic
    Real,
    /// every operation followed by an arbitrary monotone (IEEE-like) rounding
    Round,
    /// machine integers: exact integer arithmetic, overflow of i32 is reported as a panic
    Int,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Spec {
    NegInf,
    NegHuge,
    Huge,
    PosInf,
    NaN,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Term {
    Spec(Spec),
    /// sum of coeff*atom plus constant; atoms sorted, coefficients non-zero
    Lin(Vec<(Aid, Rat)>, Rat),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Fun {
    Sqrt,
    Sin,
    Cos,
    Tan,
    Asin,
    Acos,
    Atan,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Atom {
    Var(String, u64, u64),
    Prod(Tid, Tid),
    Div(Tid, Tid),
    Abs(Tid),
    Min(Tid, Tid),
    Max(Tid, Tid),
    Hypot(Tid, Tid),
    F(Fun, Tid),
    Atan2(Tid, Tid),
    Rnd(Tid),
    /// truncating integer division by a positive constant
    IDiv(Tid, i64),
}
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Rel {
    Lt,
    Le,
    Eq,
}

#[derive(Clone, Debug)]
enum Kind {
    Fork,
    Forced,
    Assume,
    Choice,
}
#[derive(Clone, Debug)]
pub struct Dec {
    pub out: u16,
    alts: Vec<u16>,
    kind: Kind,
    level_before: usize,
    /// what was decided, to detect a replay that went astray
    key: u64,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub pruned: u64,
    pub forks: u64,
    pub decisions: u64,
    pub queries: u64,
    pub unknown: u64,
    pub checks: u64,
    pub exact_queries: u64,
    pub exact_unsat: u64,
    pub solver_s: f64,
    pub validated: u64,
    pub val_runs: u64,
}

pub struct Engine {
    pub mode: Mode,
    terms: Vec<Term>,
    /// structural hashes: orders among terms and atoms must not depend on the order of creation,
    /// which differs between workers that replay each other's decisions
    tkey: Vec<u64>,
    akey: Vec<u64>,
    term_ix: HashMap<Term, Tid>,
    axpy_ix: HashMap<(Tid, Rat, Tid), Tid>,
    scale_ix: HashMap<(Tid, Rat), Tid>,
    square_ix: HashMap<Tid, Tid>,
    iv_ix: HashMap<Tid, (f64, f64)>,
    atoms: Vec<Atom>,
    atom_ix: HashMap<Atom, Aid>,
    bounds: Vec<(f64, f64)>,
    /// atoms that involve a trigonometric function
    trig: Vec<bool>,
    four_ix: HashMap<Tid, Option<Rat>>,
    declared: Vec<bool>,
    solver: Option<Solver>,
    // path state
    pub trail: Vec<Dec>,
    pos: usize,
    synced: usize,
    level: usize,
    level_marks: Vec<usize>,
    active: Vec<Aid>,
    active_set: HashSet<Aid>,
    witness: Option<HashMap<Aid, f64>>,
    nra: Option<Solver>,
    memo: HashMap<Tid, u8>,
    path: Vec<(Tid, u8)>,
    /// implications asserted on this path
    facts: Vec<(Signs, Signs)>,
    pub observed: Vec<i64>,
    pub path_started: std::time::Instant,
    pub path_limit: f64,
    pub reps: Vec<(Tid, f64)>,
    /// comparisons made on this path, and where the stack was when it began
    steps: u64,
    pub stack_base: usize,
    pub stats: Stats,
    pub timeout_ms: u32,
    pub exact_ms: u32,
    /// consult the exact theory at forks whose condition involves non-linear atoms
    pub exact_forks: bool,
    pub light: bool,
    /// equal arguments have equal sines and cosines (with `light`)
    pub congruent: bool,
    /// linear envelopes of products, sines and cosines over the ranges of their arguments
    pub envelopes: bool,
    pub searches: u32,
}

/// A path that recurses or loops beyond all reason is a candidate for non-termination.
pub type Signs = Vec<(Tid, u8)>;
pub const RUNAWAY: &str = "the call does not come to an end (runaway recursion or loop)";
const MAX_STEPS: u64 = 30_000_000;
const MAX_STACK: usize = 96 << 20;
thread_local! { pub static ENG: RefCell<Option<Engine>> = const { RefCell::new(None) }; }

pub fn with<R>(f: impl FnOnce(&mut Engine) -> R) -> R {
    ENG.with(|e| {
        let mut g = match e.try_borrow_mut() {
            Ok(g) => g,
            Err(_) => panic!("engine re-entered"),
        };
        f(g.as_mut().expect("no engine on this thread"))
    })
}

fn structural(v: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    // SipHash with fixed keys
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new_with_keys(7, 11);
    v.hash(&mut h);
    h.finish()
}
impl Engine {
    pub fn new(mode: Mode) -> Engine {
        Engine {
            mode,
            terms: vec![],
            tkey: vec![],
            akey: vec![],
            term_ix: HashMap::default(),
            axpy_ix: HashMap::default(),
            scale_ix: HashMap::default(),
            square_ix: HashMap::default(),
            iv_ix: HashMap::default(),
            atoms: vec![],
            atom_ix: HashMap::default(),
            bounds: vec![],
            trig: vec![],
            four_ix: HashMap::default(),
            declared: vec![],
            solver: None,
            trail: vec![],
            pos: 0,
            synced: 0,
            level: 0,
            level_marks: vec![],
            active: vec![],
            active_set: HashSet::default(),
            witness: None,
            nra: None,
            memo: HashMap::default(),
            path: vec![],
            facts: vec![],
            observed: vec![],
            path_started: std::time::Instant::now(),
            path_limit: 100.0,
            reps: vec![],
            steps: 0,
            stack_base: 0,
            stats: Stats::default(),
            timeout_ms: 4000,
            exact_ms: 20000,
            exact_forks: false,
            light: false,
            congruent: false,
            envelopes: false,
            searches: 0,
        }
    }
    fn solver(&mut self) -> &mut Solver {
        if self.solver.is_none() {
            let mut s = Solver::new();
            s.send("(set-option :global-declarations true)");
            if self.envelopes {
                s.send("(set-option :timeout 1000)");
                s.keep_shadow("QF_LRA");
            } else {
                s.send(&format!("(set-option :timeout {})", self.timeout_ms));
            }
            self.solver = Some(s);
        }
        self.solver.as_mut().unwrap()
    }
    // ---------------------------------------------------------------- terms
    pub fn mk(&mut self, t: Term) -> Tid {
        if let Some(&i) = self.term_ix.get(&t) {
            return i;
        }
        let i = self.terms.len() as Tid;
        let key = match &t {
            Term::Spec(s) => structural(&(1u8, *s)),
            Term::Lin(v, c) => {
                let v: Vec<(u64, Rat)> = v.iter().map(|(a, k)| (self.akey[*a as usize], *k)).collect();
                structural(&(2u8, v, *c))
            }
        };
        self.tkey.push(key);
        self.terms.push(t.clone());
        self.term_ix.insert(t, i);
        i
    }
    pub fn spec(&mut self, s: Spec) -> Tid {
        self.mk(Term::Spec(s))
    }
    pub fn konst(&mut self, r: Rat) -> Tid {
        self.mk(Term::Lin(vec![], r))
    }
    pub fn konst_f64(&mut self, v: f64) -> Tid {
        if v.is_nan() {
            self.spec(Spec::NaN)
        } else if v == f64::INFINITY {
            self.spec(Spec::PosInf)
        } else if v == f64::NEG_INFINITY {
            self.spec(Spec::NegInf)
        } else if v >= 1e300 {
            self.spec(Spec::Huge)
        } else if v <= -1e300 {
            self.spec(Spec::NegHuge)
        } else {
            match Rat::from_f64(v) {
                Some(r) => self.konst(r),
                None => engine_error(&format!("constant {v:e} out of range")),
            }
        }
    }
    pub fn term(&self, t: Tid) -> &Term {
        &self.terms[t as usize]
    }
    pub fn atom(&self, a: Aid) -> &Atom {
        &self.atoms[a as usize]
    }
    pub fn as_const(&self, t: Tid) -> Option<Rat> {
        match self.term(t) {
            Term::Lin(v, c) if v.is_empty() => Some(*c),
            _ => None,
        }
    }
    pub fn as_spec(&self, t: Tid) -> Option<Spec> {
        match self.term(t) {
            Term::Spec(s) => Some(*s),
            _ => None,
        }
    }
    fn mk_atom(&mut self, a: Atom) -> Tid {
        let id = match self.atom_ix.get(&a) {
            Some(&i) => i,
            None => {
                let i = self.atoms.len() as Aid;
                let b = self.atom_bounds(&a);
                let k = |t: &Tid| self.tkey[*t as usize];
                let key = match &a {
                    Atom::Var(n, lo, hi) => structural(&(1u8, n, lo, hi)),
                    Atom::Prod(x, y) => structural(&(2u8, k(x), k(y))),
                    Atom::Div(x, y) => structural(&(3u8, k(x), k(y))),
                    Atom::Abs(x) => structural(&(4u8, k(x))),
                    Atom::Min(x, y) => structural(&(5u8, k(x), k(y))),
                    Atom::Max(x, y) => structural(&(6u8, k(x), k(y))),
                    Atom::Hypot(x, y) => structural(&(7u8, k(x), k(y))),
                    Atom::F(f, x) => structural(&(8u8, *f, k(x))),
                    Atom::Atan2(x, y) => structural(&(9u8, k(x), k(y))),
                    Atom::Rnd(x) => structural(&(10u8, k(x))),
                    Atom::IDiv(x, n) => structural(&(11u8, k(x), *n)),
                };
                if self.akey.contains(&key) {
                    engine_error("structural hash collision");
                }
                self.akey.push(key);
                self.atoms.push(a.clone());
                self.atom_ix.insert(a, i);
                self.bounds.push(b);
                let g = match &self.atoms[i as usize] {
                    Atom::F(Fun::Sqrt, _) => false,
                    Atom::F(..) | Atom::Atan2(..) => true,
                    _ => false,
                } || self.atom_args(i).into_iter().any(|t| self.has_trig(t));
                self.trig.push(g);
                self.declared.push(false);
                i
            }
        };
        self.mk(Term::Lin(vec![(id, Rat::ONE)], Rat::ZERO))
    }
    pub fn is_trig(&self, a: Aid) -> bool {
        self.trig[a as usize]
    }
    /// A single sine or cosine.
    fn wave_atom(&self, t: Tid) -> bool {
        matches!(self.lone(t).map(|a| self.atom(a)), Some(Atom::F(Fun::Sin | Fun::Cos, _)))
    }
    /// The one atom a term consists of.
    pub fn lone(&self, t: Tid) -> Option<Aid> {
        match self.single(t) {
            Some((a, k)) if k == Rat::ONE => Some(a),
            _ => None,
        }
    }
    /// Is w = +-2 v?
    pub fn double_is(&self, v: Tid, w: Tid) -> bool {
        let (a, c) = self.lin(v);
        let (b, d) = self.lin(w);
        [2, -2].into_iter().any(|k| {
            let k = Rat::int(k);
            a.len() == b.len() && d == c.mul(k) && a.iter().zip(&b).all(|(x, y)| x.0 == y.0 && y.1 == x.1.mul(k))
        })
    }
    /// Is 2 w = +-u +- v?
    pub fn half_sum_or_difference(&self, w: Tid, u: Tid, v: Tid) -> bool {
        let (a, c) = self.lin(w);
        let (b, d) = self.lin(u);
        let (g, h) = self.lin(v);
        let coef = |l: &Vec<(Aid, Rat)>, i: Aid| l.iter().find(|e| e.0 == i).map(|e| e.1).unwrap_or(Rat::ZERO);
        let ids: HashSet<Aid> = a.iter().chain(&b).chain(&g).map(|e| e.0).collect();
        [(1, 1), (1, -1), (-1, 1), (-1, -1)].into_iter().any(|(s, t)| {
            let (s, t) = (Rat::int(s), Rat::int(t));
            c.mul(Rat::int(2)) == d.mul(s).add(h.mul(t))
                && ids.iter().all(|i| coef(&a, *i).mul(Rat::int(2)) == coef(&b, *i).mul(s).add(coef(&g, *i).mul(t)))
        })
    }
    pub fn has_trig(&self, t: Tid) -> bool {
        match self.term(t) {
            Term::Lin(v, _) => v.iter().any(|(a, _)| self.trig[*a as usize]),
            _ => false,
        }
    }
    fn atom_bounds(&self, a: &Atom) -> (f64, f64) {
        let inf = f64::INFINITY;
        let iv = |t: Tid| self.interval(t);
        match a {
            Atom::Var(_, lo, hi) => (f64::from_bits(*lo), f64::from_bits(*hi)),
            Atom::Prod(x, y) => {
                let (a, b) = (iv(*x), iv(*y));
                let c = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1];
                if c.iter().any(|v| v.is_nan()) {
                    return (-inf, inf);
                }
                let lo = c.iter().cloned().fold(inf, f64::min);
                let hi = c.iter().cloned().fold(-inf, f64::max);
                if x == y {
                    (lo.max(0.0), if self.wave_atom(*x) { hi.min(1.0) } else { hi })
                } else {
                    (lo, hi)
                }
            }
            Atom::Abs(x) => {
                let a = iv(*x);
                (if a.0 > 0.0 { a.0 } else if a.1 < 0.0 { -a.1 } else { 0.0 }, a.0.abs().max(a.1.abs()))
            }
            Atom::Min(x, y) => (iv(*x).0.min(iv(*y).0), iv(*x).1.min(iv(*y).1)),
            Atom::Max(x, y) => (iv(*x).0.max(iv(*y).0), iv(*x).1.max(iv(*y).1)),
            Atom::Hypot(x, y) => {
                let (a, b) = (iv(*x), iv(*y));
                (0.0, a.0.abs().max(a.1.abs()) + b.0.abs().max(b.1.abs()))
            }
            Atom::F(f, x) => match f {
                Fun::Sqrt => {
                    let a = iv(*x);
                    (a.0.max(0.0).sqrt() * (1.0 - 1e-15), a.1.max(0.0).sqrt() * (1.0 + 1e-15))
                }
                Fun::Sin => wave(iv(*x), std::f64::consts::FRAC_PI_2),
                Fun::Cos => wave(iv(*x), 0.0),
                Fun::Asin => {
                    let a = iv(*x);
                    (a.0.clamp(-1.0, 1.0).asin() - 1e-12, a.1.clamp(-1.0, 1.0).asin() + 1e-12)
                }
                Fun::Atan => (-1.5707963267948968, 1.5707963267948968),
                Fun::Acos => (0.0, 3.1415926535897936),
                Fun::Tan => (-inf, inf),
            },
            Atom::Atan2(y, x) => {
                let (y, x) = (iv(*y), iv(*x));
                if x.0 > 0.0 || y.0 > 0.0 || y.1 < 0.0 {
                    let c = [y.0.atan2(x.0), y.0.atan2(x.1), y.1.atan2(x.0), y.1.atan2(x.1)];
                    let lo = c.iter().cloned().fold(inf, f64::min);
                    let hi = c.iter().cloned().fold(-inf, f64::max);
                    (lo - 1e-12, hi + 1e-12)
                } else {
                    (-3.1415926535897936, 3.1415926535897936)
                }
            }
            Atom::Rnd(x) => {
                let a = iv(*x);
                (a.0 - a.0.abs(), a.1 + a.1.abs())
            }
            Atom::Div(..) => (-inf, inf),
            Atom::IDiv(x, k) => {
                let a = iv(*x);
                (a.0 / *k as f64 - 1.0, a.1 / *k as f64 + 1.0)
            }
        }
    }
    pub fn one_signed(&self, t: Tid) -> bool {
        let (l, h) = self.interval(t);
        l > 0.0 || h < 0.0
    }
    /// Interval enclosure (with slack) of a term.
    pub fn interval(&self, t: Tid) -> (f64, f64) {
        match self.term(t) {
            Term::Spec(_) => (f64::NEG_INFINITY, f64::INFINITY),
            Term::Lin(v, c) => {
                let c = c.to_f64();
                let (mut lo, mut hi) = (c, c);
                let mut mag = c.abs();
                for (a, k) in v {
                    let k = k.to_f64();
                    let (l, h) = self.bounds[*a as usize];
                    let (x, y) = if k > 0.0 { (k * l, k * h) } else { (k * h, k * l) };
                    lo += x;
                    hi += y;
                    mag += x.abs().max(y.abs());
                }
                if lo.is_nan() || hi.is_nan() {
                    return (f64::NEG_INFINITY, f64::INFINITY);
                }
                let m = if mag.is_finite() { mag * 1e-12 } else { 0.0 };
                (lo - m, hi + m)
            }
        }
    }
    fn lin(&self, t: Tid) -> (Vec<(Aid, Rat)>, Rat) {
        match self.term(t) {
            Term::Lin(v, c) => (v.clone(), *c),
            Term::Spec(s) => engine_error(&format!("arithmetic on special value {s:?}")),
        }
    }
    /// Linear combination a + k*b, no rounding.
    pub fn axpy(&mut self, a: Tid, k: Rat, b: Tid) -> Tid {
        if let Some(&t) = self.axpy_ix.get(&(a, k, b)) {
            return t;
        }
        let t = self.axpy_new(a, k, b);
        self.axpy_ix.insert((a, k, b), t);
        t
    }
    fn axpy_new(&mut self, a: Tid, k: Rat, b: Tid) -> Tid {
        let (va, ca) = self.lin(a);
        let (vb, cb) = self.lin(b);
        let mut out = Vec::with_capacity(va.len() + vb.len());
        let (mut i, mut j) = (0, 0);
        while i < va.len() || j < vb.len() {
            if j >= vb.len() || (i < va.len() && self.akey[va[i].0 as usize] < self.akey[vb[j].0 as usize]) {
                out.push(va[i]);
                i += 1;
            } else if i >= va.len() || self.akey[vb[j].0 as usize] < self.akey[va[i].0 as usize] {
                out.push((vb[j].0, vb[j].1.mul(k)));
                j += 1;
            } else {
                let c = va[i].1.add(vb[j].1.mul(k));
                if c.n != 0 {
                    out.push((va[i].0, c));
                }
                i += 1;
                j += 1;
            }
        }
        let c = ca.add(cb.mul(k));
        self.mk(Term::Lin(out, c))
    }
    fn scale(&mut self, a: Tid, k: Rat) -> Tid {
        if k == Rat::ONE {
            return a;
        }
        if let Some(&t) = self.scale_ix.get(&(a, k)) {
            return t;
        }
        let t = self.scale_new(a, k);
        self.scale_ix.insert((a, k), t);
        t
    }
    fn scale_new(&mut self, a: Tid, k: Rat) -> Tid {
        if k.n == 0 {
            return self.konst(Rat::ZERO);
        }
        let (mut v, c) = self.lin(a);
        for e in v.iter_mut() {
            e.1 = e.1.mul(k);
        }
        self.mk(Term::Lin(v, c.mul(k)))
    }
    /// Normalise to leading coefficient one: t = k * n.
    fn normal(&mut self, t: Tid) -> (Rat, Tid) {
        let k = match self.term(t) {
            Term::Lin(v, c) => {
                if let Some(f) = v.first() {
                    f.1
                } else {
                    *c
                }
            }
            _ => engine_error("normal of special"),
        };
        if k.n == 0 {
            return (Rat::ONE, t);
        }
        (k, self.scale(t, k.inv()))
    }
    /// Normalise the sign only: t = s * n with s = +-1 and a positive leading coefficient.
    fn sign_normal(&mut self, t: Tid) -> (i32, Tid) {
        let k = match self.term(t) {
            Term::Lin(v, c) => v.first().map(|f| f.1).unwrap_or(*c),
            _ => engine_error("sign of special"),
        };
        if k.sgn() < 0 {
            (-1, self.scale(t, Rat::int(-1)))
        } else {
            (1, t)
        }
    }
    fn is_representable(&self, t: Tid) -> bool {
        match self.term(t) {
            Term::Lin(v, c) => {
                v.is_empty()
                    || (v.len() == 1
                        && c.n == 0
                        && v[0].1.n.unsigned_abs().is_power_of_two()
                        && (v[0].1.d as u128).is_power_of_two()
                        && matches!(self.atoms[v[0].0 as usize], Atom::Var(..) | Atom::Rnd(_) | Atom::Abs(_) | Atom::Min(..) | Atom::Max(..)))
            }
            _ => true,
        }
    }
    /// Result of an arithmetic operation in the current mode.
    fn result(&mut self, t: Tid) -> Tid {
        match self.mode {
            Mode::Real => t,
            Mode::Round => {
                if let Some(c) = self.as_const(t) {
                    let v = c.to_f64();
                    return self.konst_f64(v);
                }
                if self.is_representable(t) {
                    return t;
                }
                let (s, n) = self.sign_normal(t);
                let r = self.mk_atom(Atom::Rnd(n));
                if s < 0 {
                    self.scale(r, Rat::int(-1))
                } else {
                    r
                }
            }
            Mode::Int => {
                // i32 overflow check, as in a debug build
                let (lo, hi) = (self.konst(Rat::int(i32::MIN as i64)), self.konst(Rat::int(i32::MAX as i64)));
                if self.decide(hi, t, Rel::Lt) || self.decide(t, lo, Rel::Lt) {
                    panic!("attempt to compute with overflow (i32)");
                }
                t
            }
        }
    }
    pub fn add(&mut self, a: Tid, b: Tid) -> Tid {
        match (self.as_spec(a), self.as_spec(b)) {
            (Some(Spec::NaN), _) | (_, Some(Spec::NaN)) => self.spec(Spec::NaN),
            (Some(s), None) => self.spec(s),
            (None, Some(s)) => self.spec(s),
            (Some(s), Some(u)) if s == u => self.spec(s),
            (Some(_), Some(_)) => self.spec(Spec::NaN),
            _ => {
                let t = self.axpy(a, Rat::ONE, b);
                self.result(t)
            }
        }
    }
    pub fn neg(&mut self, a: Tid) -> Tid {
        match self.as_spec(a) {
            Some(Spec::NaN) => a,
            Some(Spec::PosInf) => self.spec(Spec::NegInf),
            Some(Spec::NegInf) => self.spec(Spec::PosInf),
            Some(Spec::Huge) => self.spec(Spec::NegHuge),
            Some(Spec::NegHuge) => self.spec(Spec::Huge),
            None => self.scale(a, Rat::int(-1)),
        }
    }
    pub fn sub(&mut self, a: Tid, b: Tid) -> Tid {
        let n = self.neg(b);
        self.add(a, n)
    }
    pub fn mul(&mut self, a: Tid, b: Tid) -> Tid {
        if self.as_spec(a).is_some() || self.as_spec(b).is_some() {
            let sgn = |e: &mut Engine, t: Tid| -> i32 {
                match e.as_spec(t) {
                    Some(Spec::NaN) => 0,
                    Some(Spec::NegInf) | Some(Spec::NegHuge) => -1,
                    Some(_) => 1,
                    None => {
                        let z = e.konst(Rat::ZERO);
                        if e.decide(t, z, Rel::Lt) {
                            -1
                        } else if e.decide(t, z, Rel::Eq) {
                            0
                        } else {
                            1
                        }
                    }
                }
            };
            let s = sgn(self, a) * sgn(self, b);
            return self.spec(match s {
                0 => Spec::NaN,
                1 => Spec::PosInf,
                _ => Spec::NegInf,
            });
        }
        if let Some(k) = self.as_const(a) {
            let t = self.scale(b, k);
            return self.result(t);
        }
        if let Some(k) = self.as_const(b) {
            let t = self.scale(a, k);
            return self.result(t);
        }
        let t = self.prod(a, b);
        self.result(t)
    }
    /// The factors of a product of atoms.
    fn factors(&self, t: Tid, out: &mut Vec<Tid>) {
        if let Term::Lin(v, c) = self.term(t) {
            if v.len() == 1 && c.n == 0 && v[0].1 == Rat::ONE {
                if let Atom::Prod(x, y) = self.atom(v[0].0) {
                    let (x, y) = (*x, *y);
                    self.factors(x, out);
                    self.factors(y, out);
                    return;
                }
            }
        }
        out.push(t)
    }
    fn prod(&mut self, a: Tid, b: Tid) -> Tid {
        let (ka, na) = self.normal(a);
        let (kb, nb) = self.normal(b);
        if self.mode == Mode::Real && (self.has_trig(na) || self.has_trig(nb)) {
            if let (true, Some(at)) = (na == nb, self.lone(na)) {
                if let Atom::F(Fun::Sqrt, x) = self.atom(at).clone() {
                    return self.scale(x, ka.mul(kb));
                }
            }
            // products of trigonometric terms are kept in one shape: single factors, then squares
            let mut f = vec![];
            self.factors(na, &mut f);
            self.factors(nb, &mut f);
            if f.len() > 2 {
                f.sort_by_key(|t| self.tkey[*t as usize]);
                let (mut one, mut sq) = (vec![], vec![]);
                let mut i = 0;
                while i < f.len() {
                    if i + 1 < f.len() && f[i] == f[i + 1] {
                        sq.push(self.mk_atom(Atom::Prod(f[i], f[i])));
                        i += 2;
                    } else {
                        one.push(f[i]);
                        i += 1;
                    }
                }
                let mut fold = |e: &mut Engine, v: Vec<Tid>| {
                    v.into_iter().reduce(|x, y| {
                        let (x, y) = if e.tkey[x as usize] <= e.tkey[y as usize] { (x, y) } else { (y, x) };
                        e.mk_atom(Atom::Prod(x, y))
                    })
                };
                let (o, q) = (fold(self, one), fold(self, sq));
                let p = fold(self, o.into_iter().chain(q).collect()).unwrap();
                return self.scale(p, ka.mul(kb));
            }
        }
        let (x, y) = if self.tkey[na as usize] <= self.tkey[nb as usize] { (na, nb) } else { (nb, na) };
        let p = self.mk_atom(Atom::Prod(x, y));
        self.scale(p, ka.mul(kb))
    }
    pub fn div(&mut self, a: Tid, b: Tid) -> Tid {
        if self.as_spec(a) == Some(Spec::NaN) || self.as_spec(b) == Some(Spec::NaN) {
            return self.spec(Spec::NaN);
        }
        if self.as_spec(b).is_some() {
            if self.as_spec(a).is_some() {
                return self.spec(Spec::NaN);
            }
            return self.konst(Rat::ZERO);
        }
        if self.as_spec(a).is_some() {
            let z = self.konst(Rat::ZERO);
            let neg = self.decide(b, z, Rel::Lt);
            return if neg { self.neg(a) } else { a };
        }
        if self.mode == Mode::Int {
            let k = match self.as_const(b) {
                Some(k) if k.d == 1 && k.n > 0 => k.n as i64,
                Some(k) if k.n == 0 => panic!("attempt to divide by zero"),
                _ => engine_error("integer division by a non-constant"),
            };
            if k == 1 {
                return a;
            }
            if let Some(c) = self.as_const(a) {
                return self.konst(Rat::int((c.n / k as i128) as i64));
            }
            return self.mk_atom(Atom::IDiv(a, k));
        }
        if let Some(k) = self.as_const(b) {
            if k.n != 0 {
                let t = self.scale(a, k.inv());
                return if k.n.abs() == 1 && k.d == 1 { t } else { self.result(t) };
            }
        }
        let z = self.konst(Rat::ZERO);
        if self.decide(b, z, Rel::Eq) {
            return if self.decide(a, z, Rel::Eq) {
                self.spec(Spec::NaN)
            } else if self.decide(a, z, Rel::Lt) {
                self.spec(Spec::NegInf)
            } else {
                self.spec(Spec::PosInf)
            };
        }
        if let Some(c) = self.as_const(a) {
            if c.n == 0 {
                return a;
            }
        }
        let (ka, na) = self.normal(a);
        let (kb, nb) = self.normal(b);
        if na == nb {
            let t = self.konst(ka.div(kb));
            return self.result(t);
        }
        let q = self.mk_atom(Atom::Div(na, nb));
        let t = self.scale(q, ka.div(kb));
        self.result(t)
    }
    pub fn rem(&mut self, a: Tid, b: Tid) -> Tid {
        let k = match self.as_const(b) {
            Some(k) if k.n > 0 => k,
            _ => engine_error("remainder by a non-constant"),
        };
        let (lo, hi) = self.interval(a);
        let kf = k.to_f64();
        let (q0, q1) = ((lo / kf).trunc() as i64 - 1, (hi / kf).trunc() as i64 + 1);
        if q1 - q0 > 64 {
            engine_error("remainder range too wide");
        }
        // truncated remainder: a - k*q with q = trunc(a/k)
        let z = self.konst(Rat::ZERO);
        let nonneg = self.decide(z, a, Rel::Le);
        if nonneg {
            for q in 0.max(q0)..=q1 {
                let up = self.konst(k.mul(Rat::int(q + 1)));
                if self.decide(a, up, Rel::Lt) {
                    let kq = self.konst(k.mul(Rat::int(-q)));
                    let t = self.axpy(a, Rat::ONE, kq);
                    return self.result(t);
                }
            }
        } else {
            for q in 0..=(-q0) {
                let dn = self.konst(k.mul(Rat::int(-(q + 1))));
                if self.decide(dn, a, Rel::Lt) {
                    let kq = self.konst(k.mul(Rat::int(q)));
                    let t = self.axpy(a, Rat::ONE, kq);
                    return self.result(t);
                }
            }
        }
        engine_error("remainder out of range")
    }
    /// Known sign set of a term from the path memo and intervals (no solver).
    fn known(&mut self, t: Tid) -> u8 {
        if let Some(c) = self.as_const(t) {
            return match c.sgn() {
                -1 => NEG,
                0 => ZERO,
                _ => POS,
            };
        }
        let (k, n) = self.normal(t);
        let mut s = self.memo.get(&n).copied().unwrap_or(7);
        let (lo, hi) = match self.iv_ix.get(&n) {
            Some(i) => *i,
            None => {
                let i = self.interval(n);
                self.iv_ix.insert(n, i);
                i
            }
        };
        if lo > 0.0 {
            s &= POS
        }
        if hi < 0.0 {
            s &= NEG
        }
        if k.sgn() < 0 {
            s = flip(s)
        }
        s
    }
    pub fn abs(&mut self, a: Tid) -> Tid {
        match self.as_spec(a) {
            Some(Spec::NaN) => return a,
            Some(Spec::NegInf) | Some(Spec::PosInf) => return self.spec(Spec::PosInf),
            Some(_) => return self.spec(Spec::Huge),
            None => {}
        }
        let s = self.known(a);
        if s & NEG == 0 {
            return a;
        }
        if s & POS == 0 {
            return self.neg(a);
        }
        if self.mode == Mode::Int {
            let z = self.konst(Rat::ZERO);
            return if self.decide(a, z, Rel::Lt) { self.neg(a) } else { a };
        }
        let (k, n) = self.normal(a);
        let m = self.mk_atom(Atom::Abs(n));
        let k = if k.n < 0 { k.neg() } else { k };
        self.scale(m, k)
    }
    fn minmax(&mut self, a: Tid, b: Tid, is_min: bool) -> Tid {
        if self.as_spec(a) == Some(Spec::NaN) {
            return b;
        }
        if self.as_spec(b) == Some(Spec::NaN) || a == b {
            return a;
        }
        if self.as_spec(a).is_some() || self.as_spec(b).is_some() {
            let lt = self.decide(a, b, Rel::Lt);
            return if lt == is_min { a } else { b };
        }
        let d = self.axpy(a, Rat::int(-1), b);
        let s = self.known(d);
        if s & POS == 0 {
            return if is_min { a } else { b };
        }
        if s & NEG == 0 {
            return if is_min { b } else { a };
        }
        let (x, y) = if self.tkey[a as usize] <= self.tkey[b as usize] { (a, b) } else { (b, a) };
        self.mk_atom(if is_min { Atom::Min(x, y) } else { Atom::Max(x, y) })
    }
    pub fn min(&mut self, a: Tid, b: Tid) -> Tid {
        self.minmax(a, b, true)
    }
    pub fn max(&mut self, a: Tid, b: Tid) -> Tid {
        self.minmax(a, b, false)
    }
    pub fn hypot(&mut self, a: Tid, b: Tid) -> Tid {
        if self.as_spec(a).is_some() || self.as_spec(b).is_some() {
            return if self.as_spec(a) == Some(Spec::NaN) || self.as_spec(b) == Some(Spec::NaN) {
                self.spec(Spec::NaN)
            } else {
                self.spec(Spec::PosInf)
            };
        }
        if self.known(a) == ZERO {
            return self.abs(b);
        }
        if self.known(b) == ZERO {
            return self.abs(a);
        }
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            if let Some(r) = x.mul(x).add(y.mul(y)).sqrt_exact() {
                return self.konst(r);
            }
        }
        let (_, x) = self.sign_normal(a);
        let (_, y) = self.sign_normal(b);
        let (x, y) = if self.tkey[x as usize] <= self.tkey[y as usize] { (x, y) } else { (y, x) };
        self.mk_atom(Atom::Hypot(x, y))
    }
    /// The one atom a term consists of, with its factor.
    fn single(&self, t: Tid) -> Option<(Aid, Rat)> {
        match self.term(t) {
            Term::Lin(v, c) if v.len() == 1 && c.n == 0 => Some(v[0]),
            _ => None,
        }
    }
    /// Choose between the arguments of minima and maxima a term contains.
    fn split_minmax(&mut self, mut t: Tid) -> Tid {
        loop {
            let v = match self.term(t) {
                Term::Lin(v, _) => v.clone(),
                _ => return t,
            };
            let Some((a, k)) = v.iter().find(|(a, _)| matches!(self.atom(*a), Atom::Min(..) | Atom::Max(..))).copied() else { return t };
            let (x, y, is_min) = match self.atom(a) {
                Atom::Min(x, y) => (*x, *y, true),
                Atom::Max(x, y) => (*x, *y, false),
                _ => unreachable!(),
            };
            let (x, y) = (self.split_minmax(x), self.split_minmax(y));
            let le = self.decide(x, y, Rel::Le);
            let r = if le == is_min { x } else { y };
            let at = self.mk(Term::Lin(vec![(a, Rat::ONE)], Rat::ZERO));
            let d = self.axpy(t, k.neg(), at);
            t = self.axpy(d, k, r);
        }
    }
    pub fn fun(&mut self, f: Fun, a: Tid) -> Tid {
        if self.as_spec(a).is_some() {
            return match (f, self.as_spec(a).unwrap()) {
                (Fun::Sqrt, Spec::PosInf) => a,
                _ => self.spec(Spec::NaN),
            };
        }
        let z = self.konst(Rat::ZERO);
        let a = if f == Fun::Sqrt { a } else { self.split_minmax(a) };
        match f {
            Fun::Sqrt => {
                if let Some(c) = self.as_const(a) {
                    if c.n < 0 {
                        return self.spec(Spec::NaN);
                    }
                    if let Some(r) = c.sqrt_exact() {
                        return self.konst(r);
                    }
                }
                if let (Mode::Real, Some((at, k))) = (self.mode, self.single(a)) {
                    if let (Atom::Prod(x, y), Some(r)) = (self.atom(at).clone(), if k.n > 0 { k.sqrt_exact() } else { None }) {
                        if x == y && self.has_trig(x) {
                            let m = self.abs(x);
                            return self.scale(m, r);
                        }
                    }
                }
                if self.decide(a, z, Rel::Lt) {
                    return self.spec(Spec::NaN);
                }
                self.mk_atom(Atom::F(f, a))
            }
            Fun::Asin | Fun::Acos => {
                let one = self.konst(Rat::ONE);
                let mone = self.konst(Rat::int(-1));
                if self.decide(one, a, Rel::Lt) || self.decide(a, mone, Rel::Lt) {
                    return self.spec(Spec::NaN);
                }
                if f == Fun::Asin {
                    if self.known(a) == ZERO {
                        return z;
                    }
                    if let (Mode::Real, Some(r)) = (self.mode, self.asin_of_sine(a)) {
                        return r;
                    }
                    let (s, n) = self.sign_normal(a);
                    let t = self.mk_atom(Atom::F(f, n));
                    return self.scale(t, Rat::int(s as i64));
                }
                if self.mode == Mode::Real {
                    // acos x = 2 asin sqrt((1 - x) / 2)
                    let d = self.axpy(one, Rat::int(-1), a);
                    let h = self.scale(d, Rat::new(1, 2));
                    let q = self.fun(Fun::Sqrt, h);
                    let r = self.fun(Fun::Asin, q);
                    return self.scale(r, Rat::int(2));
                }
                self.mk_atom(Atom::F(f, a))
            }
            Fun::Cos => {
                if self.known(a) == ZERO {
                    return self.konst(Rat::ONE);
                }
                let (_, n) = self.sign_normal(a);
                self.mk_atom(Atom::F(f, n))
            }
            Fun::Sin | Fun::Tan | Fun::Atan => {
                if self.known(a) == ZERO {
                    return z;
                }
                if let (Fun::Sin, Mode::Real, Some((at, k))) = (f, self.mode, self.single(a)) {
                    if let (Atom::F(Fun::Asin, x), 1, 1) = (self.atom(at).clone(), k.n.abs(), k.d) {
                        return self.scale(x, k);
                    }
                }
                let (s, n) = self.sign_normal(a);
                let t = self.mk_atom(Atom::F(f, n));
                self.scale(t, Rat::int(s as i64))
            }
        }
    }
    /// asin(sin u) and asin(|sin u|) for u in [-pi, pi].
    fn asin_of_sine(&mut self, a: Tid) -> Option<Tid> {
        let (at, k) = self.single(a)?;
        if k.n.abs() != 1 || k.d != 1 {
            return None;
        }
        let (u, folded) = match self.atom(at).clone() {
            Atom::F(Fun::Sin, u) => (u, false),
            Atom::Abs(x) => {
                let (b, l) = self.single(x)?;
                match self.atom(b).clone() {
                    Atom::F(Fun::Sin, u) if l.n.abs() == 1 && l.d == 1 => (u, true),
                    _ => return None,
                }
            }
            _ => return None,
        };
        let (lo, hi) = self.interval(u);
        let m = hi.max(-lo);
        if m > std::f64::consts::PI + 1e-9 {
            return None;
        }
        let h = self.konst_f64(std::f64::consts::FRAC_PI_2);
        let r = if folded {
            let v = self.abs(u);
            if m > std::f64::consts::FRAC_PI_2 + 1e-9 && self.decide(h, v, Rel::Lt) {
                let p = self.konst_f64(std::f64::consts::PI);
                self.axpy(p, Rat::int(-1), v)
            } else {
                v
            }
        } else if m > std::f64::consts::FRAC_PI_2 + 1e-9 {
            return None;
        } else {
            u
        };
        Some(self.scale(r, k))
    }
    pub fn atan2(&mut self, y: Tid, x: Tid) -> Tid {
        if self.as_spec(y).is_some() || self.as_spec(x).is_some() {
            engine_error("atan2 of special value");
        }
        if self.mode == Mode::Real {
            // atan2(sqrt p, sqrt(1 - p)) = asin sqrt p
            if let (Some((a, k)), Some((b, l))) = (self.single(y), self.single(x)) {
                if let (Atom::F(Fun::Sqrt, p), Atom::F(Fun::Sqrt, q)) = (self.atom(a).clone(), self.atom(b).clone()) {
                    let sum = self.axpy(p, Rat::ONE, q);
                    if k == Rat::ONE && l == Rat::ONE && self.as_const(sum) == Some(Rat::ONE) {
                        return self.fun(Fun::Asin, y);
                    }
                }
            }
        }
        self.mk_atom(Atom::Atan2(y, x))
    }
    pub fn var(&mut self, name: &str, lo: f64, hi: f64) -> Tid {
        let a = Atom::Var(name.to_string(), lo.to_bits(), hi.to_bits());
        let t = self.mk_atom(a);
        t
    }
    // ---------------------------------------------------------------- decisions
    pub fn decide(&mut self, a: Tid, b: Tid, rel: Rel) -> bool {
        self.steps += 1;
        let here = &rel as *const Rel as usize;
        if self.steps > MAX_STEPS || (self.stack_base != 0 && self.stack_base.saturating_sub(here) > MAX_STACK) {
            self.steps = 0;
            std::panic::panic_any(Stop::Check(RUNAWAY.to_string()));
        }
        let rank = |s: Option<Spec>| match s {
            Some(Spec::NegInf) => -2,
            Some(Spec::NegHuge) => -1,
            None => 0,
            Some(Spec::Huge) => 1,
            Some(Spec::PosInf) => 2,
            Some(Spec::NaN) => 9,
        };
        let (sa, sb) = (self.as_spec(a), self.as_spec(b));
        if sa.is_some() || sb.is_some() {
            let (x, y) = (rank(sa), rank(sb));
            if x == 9 || y == 9 {
                return false;
            }
            return match rel {
                Rel::Lt => x < y,
                Rel::Le => x <= y,
                Rel::Eq => x == y,
            };
        }
        let want = match rel {
            Rel::Lt => NEG,
            Rel::Le => NEG | ZERO,
            Rel::Eq => ZERO,
        };
        let d = self.axpy(a, Rat::int(-1), b);
        let (d, want) = self.reduce(d, want);
        let k = self.known(d);
        if k & want == 0 {
            return false;
        }
        if k & !want == 0 {
            return true;
        }
        let (s, n) = self.normal(d);
        let want = if s.sgn() < 0 { flip(want) } else { want };
        let k = self.memo.get(&n).copied().unwrap_or(7);
        self.branch(n, k & want, k & !want)
    }
    /// Replace the question "sign of d in want?" by an equivalent one about a simpler term:
    /// differences of distances become differences of squares, monotone functions are peeled off.
    fn reduce(&mut self, d: Tid, want: u8) -> (Tid, u8) {
        if self.mode != Mode::Real {
            return (d, want);
        }
        let (mut d, mut want) = (d, want);
        loop {
            let (v, c) = match self.term(d) {
                Term::Lin(v, c) => (v.clone(), *c),
                _ => return (d, want),
            };
            if v.iter().any(|(a, _)| self.trig[*a as usize]) {
                if let Some(c) = self.trig_const(d) {
                    return (self.konst(c), want);
                }
            }
            // minima and maxima are split
            if let Some((a, k)) = v.iter().find(|(a, _)| matches!(self.atom(*a), Atom::Min(..) | Atom::Max(..))).copied() {
                let (x, y, is_min) = match self.atom(a) {
                    Atom::Min(x, y) => (*x, *y, true),
                    Atom::Max(x, y) => (*x, *y, false),
                    _ => unreachable!(),
                };
                let le = self.decide(x, y, Rel::Le);
                let r = if le == is_min { x } else { y };
                let at = self.mk(Term::Lin(vec![(a, Rat::ONE)], Rat::ZERO));
                let d1 = self.axpy(d, k.neg(), at);
                d = self.axpy(d1, k, r);
                continue;
            }
            let kind = |e: &Engine, a: Aid| match e.atom(a) {
                Atom::Hypot(..) => 1u8,
                Atom::F(Fun::Sqrt, _) => 2,
                Atom::F(Fun::Asin, _) => 3,
                Atom::F(Fun::Acos, _) => 4,
                Atom::F(Fun::Atan, _) => 5,
                _ => 0,
            };
            let special: Vec<(Aid, Rat)> = v.iter().copied().filter(|(a, _)| kind(self, *a) != 0).collect();
            let arg = |e: &Engine, a: Aid| match e.atom(a) {
                Atom::F(_, x) => *x,
                _ => 0,
            };
            if special.len() == 2 && v.len() == 2 && c.n == 0 && kind(self, special[0].0) == kind(self, special[1].0) {
                let ((a, ka), (b, kb)) = (special[0], special[1]);
                let kd = kind(self, a);
                if kd <= 2 && ka.sgn() == -kb.sgn() {
                    let (p, q) = (self.square_atom(a), self.square_atom(b));
                    let p = self.scale(p, ka.mul(ka));
                    let n = self.axpy(p, kb.mul(kb).neg(), q);
                    if ka.sgn() < 0 {
                        want = flip(want);
                    }
                    d = n;
                    continue;
                }
                if kd >= 3 && ka == kb.neg() {
                    let (x, y) = (arg(self, a), arg(self, b));
                    let n = self.axpy(x, Rat::int(-1), y);
                    if (ka.sgn() < 0) != (kd == 4) {
                        want = flip(want);
                    }
                    d = n;
                    continue;
                }
            }
            if special.len() == 1 {
                let (a, k) = special[0];
                let kd = kind(self, a);
                if v.len() == 1 && c.n == 0 && (kd == 2 || kd == 3 || kd == 5) {
                    if k.sgn() < 0 {
                        want = flip(want);
                    }
                    d = arg(self, a);
                    continue;
                }
                if kd == 3 && self.envelopes {
                    // k asin(x) + R compares x with sin(-R/k) while that angle is one of asin's
                    let at = self.mk(Term::Lin(vec![(a, Rat::ONE)], Rat::ZERO));
                    let r = self.axpy(d, k.neg(), at);
                    let u = self.scale(r, k.neg().inv());
                    let (lo, hi) = self.interval(u);
                    if lo >= -1.5707963 && hi <= 1.5707963 {
                        let s = self.fun(Fun::Sin, u);
                        let x = arg(self, a);
                        if k.sgn() < 0 {
                            want = flip(want);
                        }
                        d = self.axpy(x, Rat::int(-1), s);
                        continue;
                    }
                }
                if kd <= 2 {
                    // k*A + R with A >= 0
                    let at = self.mk(Term::Lin(vec![(a, Rat::ONE)], Rat::ZERO));
                    let r = self.axpy(d, k.neg(), at);
                    if self.square_ok(r) {
                        let z = self.konst(Rat::ZERO);
                        if k.sgn() < 0 {
                            // sign of -|k|A + R
                            if self.decide(r, z, Rel::Lt) {
                                return (self.konst_tid(-1), want);
                            }
                            let p = self.square_atom(a);
                            let q = self.square(r);
                            d = self.axpy(q, k.mul(k).neg(), p);
                        } else {
                            if self.decide(z, r, Rel::Lt) {
                                return (self.konst_tid(1), want);
                            }
                            let p = self.square_atom(a);
                            let p = self.scale(p, k.mul(k));
                            let q = self.square(r);
                            d = self.axpy(p, Rat::int(-1), q);
                        }
                        continue;
                    }
                }
            }
            return (d, want);
        }
    }
    /// The value of a polynomial in sines and cosines that is constant.
    fn trig_const(&mut self, t: Tid) -> Option<Rat> {
        if let Some(r) = self.four_ix.get(&t) {
            return *r;
        }
        let z = self.konst(Rat::ZERO);
        let r = match self.fourier(t) {
            Some(f) if f.iter().all(|(a, _, _)| *a == z) => Some(f.first().map(|e| e.1).unwrap_or(Rat::ZERO)),
            _ => None,
        };
        self.four_ix.insert(t, r);
        r
    }
    /// A polynomial in sines and cosines as a sum of sines and cosines: (angle, cos, sin).
    fn fourier(&mut self, t: Tid) -> Option<Vec<(Tid, Rat, Rat)>> {
        let (v, c) = match self.term(t) {
            Term::Lin(v, c) => (v.clone(), *c),
            _ => return None,
        };
        let z = self.konst(Rat::ZERO);
        let mut out: Vec<(Tid, Rat, Rat)> = vec![];
        fn put(out: &mut Vec<(Tid, Rat, Rat)>, e: (Tid, Rat, Rat)) {
            match out.iter_mut().find(|f| f.0 == e.0) {
                Some(f) => {
                    f.1 = f.1.add(e.1);
                    f.2 = f.2.add(e.2);
                }
                None => out.push(e),
            }
        }
        if c.n != 0 {
            put(&mut out, (z, c, Rat::ZERO));
        }
        for (a, k) in v {
            match self.atom(a).clone() {
                Atom::F(Fun::Sin, x) => put(&mut out, (x, Rat::ZERO, k)),
                Atom::F(Fun::Cos, x) => put(&mut out, (x, k, Rat::ZERO)),
                Atom::Prod(x, y) => {
                    let (f, g) = (self.fourier(x)?, self.fourier(y)?);
                    let h = k.div(Rat::int(2));
                    for (a, ac, as_) in &f {
                        for (b, bc, bs) in &g {
                            // cos a cos b = (cos(a-b) + cos(a+b)) / 2 and so on
                            let plus = self.axpy(*a, Rat::ONE, *b);
                            let minus = self.axpy(*a, Rat::int(-1), *b);
                            let (cc, ss, sc, cs) = (ac.mul(*bc), as_.mul(*bs), as_.mul(*bc), ac.mul(*bs));
                            for (t, c, s) in [(minus, cc.add(ss), sc.add(cs.neg())), (plus, cc.add(ss.neg()), sc.add(cs))] {
                                let (sg, n) = self.sign_normal(t);
                                let s = if n == z { Rat::ZERO } else { s.mul(Rat::int(sg as i64)) };
                                put(&mut out, (n, c.mul(h), s.mul(h)));
                            }
                        }
                    }
                }
                _ => return None,
            }
            if out.len() > 64 {
                return None;
            }
        }
        out.retain(|e| e.1.n != 0 || e.2.n != 0);
        Some(out)
    }
    fn konst_tid(&mut self, v: i64) -> Tid {
        self.konst(Rat::int(v))
    }
    fn square_ok(&self, t: Tid) -> bool {
        match self.term(t) {
            Term::Lin(v, _) => v.len() <= 3 && v.iter().all(|(a, _)| matches!(self.atom(*a), Atom::Var(..) | Atom::Abs(_))) || v.is_empty() || (self.envelopes && v.len() == 1 && matches!(self.atom(v[0].0), Atom::F(Fun::Sin, _))),
            _ => false,
        }
    }
    fn square_atom(&mut self, a: Aid) -> Tid {
        match self.atom(a).clone() {
            Atom::Hypot(x, y) => {
                let (p, q) = (self.square(x), self.square(y));
                self.axpy(p, Rat::ONE, q)
            }
            Atom::F(Fun::Sqrt, x) => x,
            Atom::Abs(x) => self.square(x),
            _ => {
                let t = self.mk(Term::Lin(vec![(a, Rat::ONE)], Rat::ZERO));
                self.prod(t, t)
            }
        }
    }
    /// Square of a linear term, expanded over products of its atoms.
    pub fn square(&mut self, t: Tid) -> Tid {
        if let Some(&r) = self.square_ix.get(&t) {
            return r;
        }
        let r = self.square_new(t);
        self.square_ix.insert(t, r);
        r
    }
    fn square_new(&mut self, t: Tid) -> Tid {
        let (v, c) = self.lin(t);
        let mut out = self.konst(c.mul(c));
        for (i, (a, k)) in v.iter().enumerate() {
            let sq = self.square_atom(*a);
            out = self.axpy(out, k.mul(*k), sq);
            let ta = self.mk(Term::Lin(vec![(*a, Rat::ONE)], Rat::ZERO));
            if c.n != 0 {
                out = self.axpy(out, k.mul(c).mul(Rat::int(2)), ta);
            }
            for (b, l) in &v[i + 1..] {
                let tb = self.mk(Term::Lin(vec![(*b, Rat::ONE)], Rat::ZERO));
                let p = self.prod(ta, tb);
                out = self.axpy(out, k.mul(*l).mul(Rat::int(2)), p);
            }
        }
        out
    }
    fn learn(&mut self, n: Tid, set: u8) {
        self.memo.insert(n, set);
        self.path.push((n, set));
    }
    fn same_decision(&self, key: u64) {
        if let Some(d) = self.trail.get(self.pos) {
            if d.key != key {
                engine_error("a replayed path took another course");
            }
        }
    }
    fn branch(&mut self, n: Tid, t: u8, f: u8) -> bool {
        self.stats.decisions += 1;
        let key = self.tkey[n as usize] ^ t as u64;
        self.same_decision(key);
        if self.pos < self.trail.len() {
            let d = self.trail[self.pos].clone();
            let out = d.out == 1;
            let set = if out { t } else { f };
            if self.pos >= self.synced {
                self.trail[self.pos].level_before = self.level;
                match d.kind {
                    Kind::Fork => {
                        self.ensure(n);
                        self.push();
                        self.assert_sign(n, set);
                    }
                    Kind::Assume => {
                        self.ensure(n);
                        self.assert_sign(n, set);
                    }
                    _ => {}
                }
                self.synced = self.pos + 1;
            }
            self.pos += 1;
            match d.kind {
                Kind::Forced => {
                    self.memo.insert(n, set);
                }
                _ => self.learn(n, set),
            }
            return out;
        }
        if self.path_started.elapsed().as_secs_f64() > self.path_limit {
            engine_error("path too long");
        }
        self.ensure(n);
        // the witness shows one side satisfiable; ask the solver about the other(s)
        let ws = self.witness_side(n);
        let exact = self.exact_forks && self.nonlinear(n);
        let mut side = |e: &mut Engine, set: u8| -> (bool, Option<HashMap<Aid, f64>>, bool) {
            // (possible, model, decided by the exact theory)
            if set == 0 {
                return (false, None, false);
            }
            if ws & set != 0 {
                return (true, e.witness.clone(), false);
            }
            let (r, m) = e.query(n, set);
            if r == Res::Unsat {
                return (false, None, false);
            }
            if exact {
                let (r, m) = e.exact_feasible(n, set);
                return (r != Res::Unsat, m, r == Res::Unsat);
            }
            (true, m, false)
        };
        let (tp, tm, tx) = side(self, t);
        let (fp, fm, fx) = side(self, f);
        let level_before = self.level;
        if tp && fp {
            self.stats.forks += 1;
            self.push();
            // follow the witness first: its model stays usable
            let out = !(ws & t == 0 && ws & f != 0);
            let (set, m) = if out { (t, tm) } else { (f, fm) };
            self.assert_sign(n, set);
            self.trail.push(Dec { out: out as u16, alts: vec![!out as u16], kind: Kind::Fork, level_before, key });
            self.learn(n, set);
            self.adopt(m);
            self.pos += 1;
            self.synced = self.pos;
            return out;
        }
        // at most one side is possible (if neither is, the path itself is infeasible)
        if !tp && !fp {
            std::panic::panic_any(Stop::Prune);
        }
        let out = tp;
        let set = if out { t } else { f };
        if tx || fx {
            // only the exact theory knows: tell the abstraction
            self.assert_sign(n, set);
            self.trail.push(Dec { out: out as u16, alts: vec![], kind: Kind::Assume, level_before, key });
            self.learn(n, set);
        } else {
            self.trail.push(Dec { out: out as u16, alts: vec![], kind: Kind::Forced, level_before, key });
            self.memo.insert(n, set);
        }
        self.pos += 1;
        self.synced = self.pos;
        out
    }
    fn adopt(&mut self, m: Option<HashMap<Aid, f64>>) {
        self.witness = match m {
            Some(m) if self.witness_ok(&m) => Some(m),
            _ => None,
        };
    }
    /// Add a constraint without exploring its negation.
    pub fn assume(&mut self, a: Tid, b: Tid, rel: Rel) {
        let want = match rel {
            Rel::Lt => NEG,
            Rel::Le => NEG | ZERO,
            Rel::Eq => ZERO,
        };
        if self.as_spec(a).is_some() || self.as_spec(b).is_some() {
            if !self.decide(a, b, rel) {
                std::panic::panic_any(Stop::Prune);
            }
            return;
        }
        let d = self.axpy(a, Rat::int(-1), b);
        let (d, want) = self.reduce(d, want);
        let k = self.known(d);
        if k & want == 0 {
            std::panic::panic_any(Stop::Prune);
        }
        if k & !want == 0 {
            return;
        }
        let (s, n) = self.normal(d);
        let want = if s.sgn() < 0 { flip(want) } else { want };
        let k = self.memo.get(&n).copied().unwrap_or(7);
        let set = k & want;
        let key = self.tkey[n as usize] ^ set as u64;
        self.same_decision(key);
        if self.pos < self.trail.len() {
            if self.pos >= self.synced {
                self.trail[self.pos].level_before = self.level;
                self.ensure(n);
                self.assert_sign(n, set);
                self.synced = self.pos + 1;
            }
            self.pos += 1;
            self.learn(n, set);
            return;
        }
        self.ensure(n);
        let ws = self.witness_side(n);
        if ws & set == 0 {
            let (r, m) = self.query(n, set);
            if r == Res::Unsat {
                std::panic::panic_any(Stop::Prune);
            }
            self.witness = m;
        }
        self.trail.push(Dec { out: 1, alts: vec![], kind: Kind::Assume, level_before: self.level, key });
        self.assert_sign(n, set);
        self.pos += 1;
        self.synced = self.pos;
        self.learn(n, set);
        let w = self.witness.take();
        self.adopt(w);
    }
    /// Can all of these relations hold together on this path?  One query, no fork; when they can,
    /// they become part of the path condition.
    pub fn possible(&mut self, conj: &[(Tid, Tid, Rel)]) -> bool {
        let mut todo: Vec<(Tid, u8)> = vec![];
        for (a, b, rel) in conj {
            let want = match rel {
                Rel::Lt => NEG,
                Rel::Le => NEG | ZERO,
                Rel::Eq => ZERO,
            };
            if self.as_spec(*a).is_some() || self.as_spec(*b).is_some() {
                if !self.decide(*a, *b, *rel) {
                    return false;
                }
                continue;
            }
            let d = self.axpy(*a, Rat::int(-1), *b);
            let (d, want) = self.reduce(d, want);
            let k = self.known(d);
            if k & want == 0 {
                return false;
            }
            if k & !want == 0 {
                continue;
            }
            let (s, n) = self.normal(d);
            let want = if s.sgn() < 0 { flip(want) } else { want };
            let k = self.memo.get(&n).copied().unwrap_or(7);
            todo.push((n, k & want));
        }
        if todo.is_empty() {
            return true;
        }
        self.stats.decisions += 1;
        let key = self.tkey[todo[0].0 as usize] ^ todo.len() as u64;
        self.same_decision(key);
        if self.pos >= self.trail.len() {
            for (n, _) in &todo {
                self.ensure(*n);
            }
            let text: Vec<String> = todo.iter().map(|(n, s)| self.sign_text(*n, *s, false)).collect();
            let so = self.solver();
            so.send("(push)");
            so.send(&format!("(assert (and true {}))", text.join(" ")));
            let r = so.check();
            so.send("(pop)");
            let mut no = r == Res::Unsat;
            if !no && self.exact_forks && todo.iter().any(|t| self.nonlinear(t.0)) {
                let (last, rest) = todo.split_last().unwrap();
                let k = self.path.len();
                self.path.extend_from_slice(rest);
                let (r, _) = self.exact_feasible(last.0, last.1);
                self.path.truncate(k);
                no = r == Res::Unsat;
            }
            if no {
                self.trail.push(Dec { out: 0, alts: vec![], kind: Kind::Forced, level_before: self.level, key });
            } else {
                self.trail.push(Dec { out: 1, alts: vec![], kind: Kind::Assume, level_before: self.level, key });
                for (n, s) in &todo {
                    self.assert_sign(*n, *s);
                }
                self.witness = None;
            }
            self.pos += 1;
            self.synced = self.pos;
            if !no {
                for (n, s) in todo {
                    self.learn(n, s);
                }
            }
            return !no;
        }
        let out = self.trail[self.pos].out == 1;
        if self.pos >= self.synced {
            self.trail[self.pos].level_before = self.level;
            if out {
                for (n, s) in &todo {
                    self.ensure(*n);
                    self.assert_sign(*n, *s);
                }
            }
            self.synced = self.pos + 1;
        }
        self.pos += 1;
        if out {
            for (n, s) in todo {
                self.learn(n, s);
            }
        }
        out
    }
    fn signs(&mut self, conj: &[(Tid, Tid, Rel)]) -> Option<Signs> {
        let mut out = vec![];
        for (a, b, rel) in conj {
            let want = match rel {
                Rel::Lt => NEG,
                Rel::Le => NEG | ZERO,
                Rel::Eq => ZERO,
            };
            if self.as_spec(*a).is_some() || self.as_spec(*b).is_some() {
                return None;
            }
            let d = self.axpy(*a, Rat::int(-1), *b);
            let (d, want) = self.reduce(d, want);
            if let Some(c) = self.as_const(d) {
                let s = match c.sgn() {
                    -1 => NEG,
                    0 => ZERO,
                    _ => POS,
                };
                if s & want == 0 {
                    return None;
                }
                continue;
            }
            let (s, n) = self.normal(d);
            out.push((n, if s.sgn() < 0 { flip(want) } else { want }));
        }
        Some(out)
    }
    /// Tell the solver that the conditions imply the conclusions.
    pub fn fact(&mut self, cond: &[(Tid, Tid, Rel)], concl: &[(Tid, Tid, Rel)]) {
        let Some(c) = self.signs(cond) else { return };
        let Some(r) = self.signs(concl) else { return };
        if r.is_empty() {
            return;
        }
        let key = self.tkey[r[0].0 as usize] ^ 0xfac7;
        self.same_decision(key);
        let fresh = self.pos >= self.trail.len();
        if fresh || self.pos >= self.synced {
            for (n, _) in c.iter().chain(&r) {
                self.ensure(*n);
            }
            let text = self.fact_text(&c, &r, false);
            self.solver().send(&text);
            if fresh {
                self.trail.push(Dec { out: 1, alts: vec![], kind: Kind::Assume, level_before: self.level, key });
            } else {
                self.trail[self.pos].level_before = self.level;
            }
            self.synced = self.pos + 1;
        }
        self.pos += 1;
        self.facts.push((c, r));
    }
    fn fact_text(&self, c: &Signs, r: &Signs, exact: bool) -> String {
        let j = |v: &Signs| v.iter().map(|(n, s)| self.sign_text(*n, *s, exact)).collect::<Vec<_>>().join(" ");
        format!("(assert (=> (and true {}) (and true {})))", j(c), j(r))
    }
    /// Can any of these conjunctions hold?  One query for all; no fork and nothing assumed.
    pub fn possible_any(&mut self, alts: &[Vec<(Tid, Tid, Rel)>]) -> bool {
        let mut todo: Vec<Vec<(Tid, u8)>> = vec![];
        'alt: for conj in alts {
            let mut c = vec![];
            for (a, b, rel) in conj {
                let want = match rel {
                    Rel::Lt => NEG,
                    Rel::Le => NEG | ZERO,
                    Rel::Eq => ZERO,
                };
                if self.as_spec(*a).is_some() || self.as_spec(*b).is_some() {
                    if !self.decide(*a, *b, *rel) {
                        continue 'alt;
                    }
                    continue;
                }
                let d = self.axpy(*a, Rat::int(-1), *b);
                let (d, want) = self.reduce(d, want);
                let k = self.known(d);
                if k & want == 0 {
                    continue 'alt;
                }
                if k & !want == 0 {
                    continue;
                }
                let (s, n) = self.normal(d);
                let want = if s.sgn() < 0 { flip(want) } else { want };
                c.push((n, want));
            }
            if c.is_empty() {
                return true;
            }
            todo.push(c);
        }
        if todo.is_empty() {
            return false;
        }
        self.stats.decisions += 1;
        let key = self.tkey[todo[0][0].0 as usize] ^ todo.len() as u64;
        self.same_decision(key);
        if self.pos < self.trail.len() {
            let d = &mut self.trail[self.pos];
            if self.pos >= self.synced {
                d.level_before = self.level;
                self.synced = self.pos + 1;
            }
            self.pos += 1;
            return d.out == 1;
        }
        let mut text = vec![];
        for c in &todo {
            for (n, _) in c {
                self.ensure(*n);
            }
            let t: Vec<String> = c.iter().map(|(n, s)| self.sign_text(*n, *s, false)).collect();
            text.push(format!("(and true {})", t.join(" ")));
        }
        let so = self.solver();
        so.send("(push)");
        so.send(&format!("(assert (or false {}))", text.join(" ")));
        let r = so.check();
        so.send("(pop)");
        let out = r != Res::Unsat;
        self.trail.push(Dec { out: out as u16, alts: vec![], kind: Kind::Forced, level_before: self.level, key });
        self.pos += 1;
        self.synced = self.pos;
        out
    }
    pub fn choice(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let key = n as u64;
        self.same_decision(key);
        if self.pos < self.trail.len() {
            let o = self.trail[self.pos].out as usize;
            if self.pos >= self.synced {
                self.trail[self.pos].level_before = self.level;
                self.push();
                self.synced = self.pos + 1;
            }
            self.pos += 1;
            return o;
        }
        self.trail.push(Dec { out: 0, alts: (1..n as u16).rev().collect(), kind: Kind::Choice, level_before: self.level, key });
        self.push();
        self.pos += 1;
        self.synced = self.pos;
        0
    }
    pub fn choices(&self) -> Vec<u16> {
        self.trail.iter().filter(|d| matches!(d.kind, Kind::Choice)).map(|d| d.out).collect()
    }
    fn query(&mut self, n: Tid, set: u8) -> (Res, Option<HashMap<Aid, f64>>) {
        if set == 0 {
            return (Res::Unsat, None);
        }
        self.ensure(n);
        let s = self.sign_text(n, set, false);
        let vars = self.active_vars();
        let so = self.solver();
        so.send("(push)");
        so.send(&format!("(assert {s})"));
        let r = so.check();
        let m = if r == Res::Sat { Some(Self::read_model(so, &vars)) } else { None };
        so.send("(pop)");
        if r == Res::Unknown {
            self.stats.unknown += 1;
        }
        (r, m)
    }
    fn push(&mut self) {
        self.level_marks.push(self.active.len());
        self.level += 1;
        self.solver().send("(push)");
    }
    fn pop_to(&mut self, level: usize) {
        if level < self.level {
            let n = self.level - level;
            if self.solver.is_some() {
                self.solver().send(&format!("(pop {n})"));
            }
            let mark = self.level_marks[level];
            self.level_marks.truncate(level);
            for a in self.active.drain(mark..) {
                self.active_set.remove(&a);
            }
            self.level = level;
        }
    }
    fn assert_sign(&mut self, n: Tid, set: u8) {
        let s = self.sign_text(n, set, false);
        self.solver().send(&format!("(assert {s})"));
    }
    fn sign_text(&self, n: Tid, set: u8, exact: bool) -> String {
        let p = self.text(n, exact);
        let z = if self.mode == Mode::Int { "0" } else { "0.0" };
        match set {
            NEG => format!("(< {p} {z})"),
            ZERO => format!("(= {p} {z})"),
            POS => format!("(> {p} {z})"),
            3 => format!("(<= {p} {z})"),
            6 => format!("(>= {p} {z})"),
            5 => format!("(not (= {p} {z}))"),
            7 => "true".into(),
            _ => "false".into(),
        }
    }
    pub fn aname(&self, a: Aid, exact: bool) -> String {
        if exact {
            if let Atom::Prod(x, y) = self.atom(a) {
                return format!("(* {} {})", self.text(*x, true), self.text(*y, true));
            }
        }
        format!("a{a}")
    }
    pub fn text(&self, t: Tid, exact: bool) -> String {
        match self.term(t) {
            Term::Spec(s) => engine_error(&format!("special value {s:?} in a formula")),
            Term::Lin(v, c) => {
                let k = |r: &Rat| if self.mode == Mode::Int { r.smt_int() } else { r.smt() };
                let mut parts: Vec<String> = vec![];
                for (a, r) in v {
                    let n = self.aname(*a, exact);
                    if *r == Rat::ONE {
                        parts.push(n);
                    } else {
                        parts.push(format!("(* {} {n})", k(r)));
                    }
                }
                if c.n != 0 || parts.is_empty() {
                    parts.push(k(c));
                }
                if parts.len() == 1 {
                    parts.pop().unwrap()
                } else {
                    format!("(+ {})", parts.join(" "))
                }
            }
        }
    }
    // ---------------------------------------------------------------- atoms and axioms
    fn atom_args(&self, a: Aid) -> Vec<Tid> {
        match self.atom(a) {
            Atom::Var(..) => vec![],
            Atom::Prod(x, y) | Atom::Div(x, y) | Atom::Min(x, y) | Atom::Max(x, y) | Atom::Hypot(x, y) | Atom::Atan2(x, y) => vec![*x, *y],
            Atom::Abs(x) | Atom::F(_, x) | Atom::Rnd(x) | Atom::IDiv(x, _) => vec![*x],
        }
    }
    fn term_atoms(&self, t: Tid) -> Vec<Aid> {
        match self.term(t) {
            Term::Lin(v, _) => v.iter().map(|e| e.0).collect(),
            _ => vec![],
        }
    }
    /// Declare the atoms of a term (and their axioms) to the incremental solver.
    fn ensure(&mut self, t: Tid) {
        for a in self.term_atoms(t) {
            if self.active_set.contains(&a) {
                continue;
            }
            for x in self.atom_args(a) {
                self.ensure(x);
            }
            self.activate(a);
        }
    }
    fn activate(&mut self, a: Aid) {
        if !self.declared[a as usize] {
            self.declared[a as usize] = true;
            let sort = if self.mode == Mode::Int { "Int" } else { "Real" };
            self.solver().send(&format!("(declare-const a{a} {sort})"));
        }
        let mut ax = vec![];
        self.axioms(a, false, &mut ax);
        let others = self.active.clone();
        for o in &others {
            self.pair_axioms(a, *o, &mut ax);
        }
        if self.envelopes {
            crate::trig::envelopes(self, a, &mut ax);
        }
        if self.trig[a as usize] {
            crate::trig::identities(self, a, &others, false, &mut ax);
        }
        if !ax.is_empty() {
            let mut s = String::new();
            for x in ax {
                let _ = writeln!(s, "(assert {x})");
            }
            self.solver().send(s.trim_end());
        }
        self.active.push(a);
        self.active_set.insert(a);
    }
    /// All atoms a list of terms depends on, arguments first.
    fn cone(&self, roots: impl Iterator<Item = Tid>) -> Vec<Aid> {
        fn go(e: &Engine, t: Tid, seen: &mut HashSet<Aid>, out: &mut Vec<Aid>) {
            for a in e.term_atoms(t) {
                if seen.contains(&a) {
                    continue;
                }
                seen.insert(a);
                for x in e.atom_args(a) {
                    go(e, x, seen, out);
                }
                out.push(a);
            }
        }
        let mut seen = HashSet::default();
        let mut out = vec![];
        for t in roots {
            go(self, t, &mut seen, &mut out);
        }
        out
    }
    /// Value of a term under a concrete assignment of the variables.
    fn eval(&self, t: Tid, m: &HashMap<Aid, f64>, memo: &mut HashMap<Aid, f64>) -> f64 {
        match self.term(t) {
            Term::Spec(_) => f64::NAN,
            Term::Lin(v, c) => {
                let mut r = c.to_f64();
                for (a, k) in v {
                    r += k.to_f64() * self.eval_atom(*a, m, memo);
                }
                r
            }
        }
    }
    fn eval_atom(&self, a: Aid, m: &HashMap<Aid, f64>, memo: &mut HashMap<Aid, f64>) -> f64 {
        if let Some(v) = memo.get(&a) {
            return *v;
        }
        let v = match self.atom(a).clone() {
            Atom::Var(_, lo, hi) => match m.get(&a) {
                Some(v) => *v,
                None => default_value(f64::from_bits(lo), f64::from_bits(hi)),
            },
            Atom::Prod(x, y) => self.eval(x, m, memo) * self.eval(y, m, memo),
            Atom::Div(x, y) => self.eval(x, m, memo) / self.eval(y, m, memo),
            Atom::Abs(x) => self.eval(x, m, memo).abs(),
            Atom::Min(x, y) => self.eval(x, m, memo).min(self.eval(y, m, memo)),
            Atom::Max(x, y) => self.eval(x, m, memo).max(self.eval(y, m, memo)),
            Atom::Hypot(x, y) => self.eval(x, m, memo).hypot(self.eval(y, m, memo)),
            Atom::F(f, x) => {
                let x = self.eval(x, m, memo);
                match f {
                    Fun::Sqrt => x.max(0.0).sqrt(),
                    Fun::Sin => x.sin(),
                    Fun::Cos => x.cos(),
                    Fun::Tan => x.tan(),
                    Fun::Asin => x.clamp(-1.0, 1.0).asin(),
                    Fun::Acos => x.clamp(-1.0, 1.0).acos(),
                    Fun::Atan => x.atan(),
                }
            }
            Atom::Atan2(y, x) => self.eval(y, m, memo).atan2(self.eval(x, m, memo)),
            Atom::Rnd(x) => self.eval(x, m, memo),
            Atom::IDiv(x, k) => (self.eval(x, m, memo) / k as f64).trunc(),
        };
        memo.insert(a, v);
        v
    }
    fn sign_of(v: f64) -> u8 {
        if v.is_nan() {
            0
        } else if v.abs() < 1e-12 {
            ZERO
        } else if v < 0.0 {
            NEG
        } else {
            POS
        }
    }
    /// Does the witness assignment satisfy the current path condition (as far as f64 can tell)?
    fn witness_ok(&self, m: &HashMap<Aid, f64>) -> bool {
        let mut memo = HashMap::default();
        self.path.iter().all(|(t, set)| Self::sign_of(self.eval(*t, m, &mut memo)) & set != 0)
    }
    fn witness_side(&self, n: Tid) -> u8 {
        match &self.witness {
            Some(m) => Self::sign_of(self.eval(n, m, &mut HashMap::default())),
            None => 0,
        }
    }
    fn read_model(z: &mut Solver, vars: &[Aid]) -> HashMap<Aid, f64> {
        if vars.is_empty() {
            return HashMap::default();
        }
        let l: Vec<String> = vars.iter().map(|v| format!("a{v}")).collect();
        let s = z.sexpr(&format!("(get-value ({}))", l.join(" ")));
        parse_values(&s).into_iter().zip(vars).map(|((_, v), a)| (*a, v)).collect()
    }
    fn active_vars(&self) -> Vec<Aid> {
        self.active.iter().copied().filter(|a| matches!(self.atom(*a), Atom::Var(..))).collect()
    }
    fn axioms(&self, a: Aid, exact: bool, out: &mut Vec<String>) {
        let n = format!("a{a}");
        let tx = |t: Tid| self.text(t, exact);
        let kf = |v: f64| Rat::from_f64(v).unwrap().smt();
        match self.atom(a) {
            Atom::Var(_, lo, hi) => {
                let (lo, hi) = (f64::from_bits(*lo), f64::from_bits(*hi));
                let k = |v: f64| if self.mode == Mode::Int { Rat::from_f64(v).unwrap().smt_int() } else { kf(v) };
                if lo.is_finite() {
                    out.push(format!("(<= {} {n})", k(lo)));
                }
                if hi.is_finite() {
                    out.push(format!("(<= {n} {})", k(hi)));
                }
            }
            Atom::Prod(x, y) => {
                if exact {
                    return;
                }
                let (tx, ty) = (tx(*x), tx(*y));
                if x == y {
                    out.push(format!("(>= {n} 0.0)"));
                    out.push(format!("(= (= {n} 0.0) (= {tx} 0.0))"));
                    if self.wave_atom(*x) {
                        out.push(format!("(<= {n} 1.0)"));
                    }
                    let (_, hi) = self.bounds[a as usize];
                    if hi.is_finite() && hi < 1e15 {
                        let (l, h) = self.interval(*x);
                        let m = if self.wave_atom(*x) { l.abs().max(h.abs()).min(1.0) } else { l.abs().max(h.abs()) };
                        if let Some(r) = Rat::from_f64(m) {
                            out.push(format!("(<= {n} (* {0} (ite (>= {tx} 0.0) {tx} (- {tx}))))", r.smt()));
                        }
                    }
                } else if self.envelopes && self.one_signed(*x) && self.one_signed(*y) {
                    // the envelopes say more
                } else {
                    out.push(format!("(=> (and (> {tx} 0.0) (> {ty} 0.0)) (> {n} 0.0))"));
                    out.push(format!("(=> (and (< {tx} 0.0) (< {ty} 0.0)) (> {n} 0.0))"));
                    out.push(format!("(=> (and (> {tx} 0.0) (< {ty} 0.0)) (< {n} 0.0))"));
                    out.push(format!("(=> (and (< {tx} 0.0) (> {ty} 0.0)) (< {n} 0.0))"));
                    out.push(format!("(=> (or (= {tx} 0.0) (= {ty} 0.0)) (= {n} 0.0))"));
                    // unit-interval factors scale down
                    for (p, q, f, g) in [(&tx, &ty, *x, *y), (&ty, &tx, *y, *x)] {
                        let _ = g;
                        let (l, h) = self.interval(f);
                        if l >= -1.001 && h <= 1.001 {
                            out.push(format!("(=> (and (<= 0.0 {p}) (<= {p} 1.0) (>= {q} 0.0)) (and (<= 0.0 {n}) (<= {n} {q})))"));
                        }
                    }
                }
            }
            Atom::Div(x, y) => {
                let (p, q) = (tx(*x), tx(*y));
                if exact {
                    out.push(format!("(= (* {n} {q}) {p})"));
                }
                out.push(format!("(=> (> {q} 0.0) (and (= (> {n} 0.0) (> {p} 0.0)) (= (< {n} 0.0) (< {p} 0.0)) (= (> {n} 1.0) (> {p} {q})) (= (< {n} 1.0) (< {p} {q}))))"));
                out.push(format!("(=> (< {q} 0.0) (and (= (> {n} 0.0) (< {p} 0.0)) (= (< {n} 0.0) (> {p} 0.0)) (= (> {n} 1.0) (< {p} {q})) (= (< {n} 1.0) (> {p} {q}))))"));
            }
            Atom::Abs(x) => {
                let t = tx(*x);
                out.push(format!("(= {n} (ite (>= {t} 0.0) {t} (- {t})))"));
            }
            Atom::Min(x, y) => {
                let (p, q) = (tx(*x), tx(*y));
                out.push(format!("(= {n} (ite (<= {p} {q}) {p} {q}))"));
            }
            Atom::Max(x, y) => {
                let (p, q) = (tx(*x), tx(*y));
                out.push(format!("(= {n} (ite (>= {p} {q}) {p} {q}))"));
            }
            Atom::Hypot(x, y) => {
                let (p, q) = (tx(*x), tx(*y));
                for t in [&p, &q] {
                    out.push(format!("(>= {n} {t})"));
                    out.push(format!("(>= {n} (- {t}))"));
                }
                out.push(format!("(<= {n} (+ (ite (>= {p} 0.0) {p} (- {p})) (ite (>= {q} 0.0) {q} (- {q}))))"));
                if exact {
                    out.push(format!("(>= {n} 0.0)"));
                    out.push(format!("(= (* {n} {n}) (+ (* {p} {p}) (* {q} {q})))"));
                }
            }
            Atom::F(f, x) => {
                crate::trig::fun_axioms(*f, self.bounds[a as usize], &n, &tx(*x), exact, self.envelopes && self.one_signed(*x), out);
            }
            Atom::Atan2(y, x) => {
                crate::trig::atan2_axioms(&n, &tx(*y), &tx(*x), out);
                if self.envelopes {
                    let (l, h) = self.bounds[a as usize];
                    out.push(format!("(and (<= {} {n}) (<= {n} {}))", kf(l), kf(h)));
                }
            }
            Atom::Rnd(x) => {
                let t = tx(*x);
                out.push(format!("(=> (>= {t} 0.0) (and (<= 0.0 {n}) (<= {n} (* 2.0 {t}))))"));
                out.push(format!("(=> (<= {t} 0.0) (and (<= {n} 0.0) (<= (* 2.0 {t}) {n})))"));
            }
            Atom::IDiv(x, k) => {
                let t = tx(*x);
                out.push(format!("(=> (>= {t} 0) (and (<= (* {k} {n}) {t}) (< {t} (+ (* {k} {n}) {k}))))"));
                out.push(format!("(=> (< {t} 0) (and (>= (* {k} {n}) {t}) (> {t} (- (* {k} {n}) {k}))))"));
            }
        }
    }
    fn pair_axioms(&self, a: Aid, b: Aid, out: &mut Vec<String>) {
        let (na, nb) = (format!("a{a}"), format!("a{b}"));
        let ab = |t: Tid| {
            let s = self.text(t, false);
            format!("(ite (>= {s} 0.0) {s} (- {s}))")
        };
        match (self.atom(a), self.atom(b)) {
            (Atom::Hypot(p, q), Atom::Hypot(r, s)) => {
                let (p, q, r, s) = (ab(*p), ab(*q), ab(*r), ab(*s));
                // monotone in both arguments, arguments commute
                for (r, s) in [(&r, &s), (&s, &r)] {
                    out.push(format!("(=> (and (<= {p} {r}) (<= {q} {s})) (<= {na} {nb}))"));
                    out.push(format!("(=> (and (>= {p} {r}) (>= {q} {s})) (>= {na} {nb}))"));
                }
            }
            (Atom::Rnd(x), o) | (o, Atom::Rnd(x)) if self.mode == Mode::Round => {
                let (rn, on) = if matches!(self.atom(a), Atom::Rnd(y) if y == x) && !std::ptr::eq(self.atom(a), o) { (&na, &nb) } else { (&nb, &na) };
                let t = self.text(*x, false);
                match o {
                    Atom::Rnd(y) => {
                        let u = self.text(*y, false);
                        out.push(format!("(=> (<= {t} {u}) (<= {rn} {on}))"));
                        out.push(format!("(=> (>= {t} {u}) (>= {rn} {on}))"));
                        out.push(format!("(=> (<= {t} {on}) (<= {rn} {on}))"));
                        out.push(format!("(=> (>= {t} {on}) (>= {rn} {on}))"));
                        out.push(format!("(=> (<= {u} {rn}) (<= {on} {rn}))"));
                        out.push(format!("(=> (>= {u} {rn}) (>= {on} {rn}))"));
                        // and against the negated neighbour
                        out.push(format!("(=> (<= {t} (- {on})) (<= {rn} (- {on})))"));
                        out.push(format!("(=> (>= {t} (- {on})) (>= {rn} (- {on})))"));
                    }
                    Atom::Var(..) => {
                        out.push(format!("(=> (<= {t} {on}) (<= {rn} {on}))"));
                        out.push(format!("(=> (>= {t} {on}) (>= {rn} {on}))"));
                    }
                    _ => {}
                }
            }
            (Atom::F(..), Atom::F(..)) | (Atom::Atan2(..), _) | (_, Atom::Atan2(..)) => {
                crate::trig::pair_axioms(self, a, b, out);
            }
            _ => {}
        }
    }
    /// Extra facts (lemmas) for the current path; `key` makes re-assertion on replay unnecessary.
    pub fn bounds_of(&self, a: Aid) -> (f64, f64) {
        self.bounds[a as usize]
    }
    fn nonlinear(&self, t: Tid) -> bool {
        match self.term(t) {
            Term::Lin(v, _) => v.iter().any(|(a, _)| !matches!(self.atom(*a), Atom::Var(..) | Atom::Rnd(_) | Atom::IDiv(..))),
            _ => false,
        }
    }
    // ---------------------------------------------------------------- exact stage
    fn exact_script(&self, n: Option<(Tid, u8)>) -> (String, Vec<Aid>) {
        self.script_of(&self.path, n)
    }
    /// The part of the path condition that is polynomial, or speaks of nothing but what the query speaks of.
    fn polynomial_part(&self, n: Tid) -> Option<Vec<(Tid, u8)>> {
        let own: HashSet<Aid> = self.cone([n].into_iter()).into_iter().collect();
        let v: Vec<(Tid, u8)> = self
            .path
            .iter()
            .filter(|(t, _)| self.cone([*t].into_iter()).iter().all(|a| own.contains(a) || matches!(self.atom(*a), Atom::Var(..) | Atom::Prod(..))))
            .copied()
            .collect();
        (v.len() < self.path.len()).then_some(v)
    }
    fn script_of(&self, path: &[(Tid, u8)], n: Option<(Tid, u8)>) -> (String, Vec<Aid>) {
        let mut s = String::new();
        let sort = if self.mode == Mode::Int { "Int" } else { "Real" };
        let facts = self.facts.iter().flat_map(|(c, r)| c.iter().chain(r).map(|p| p.0));
        let atoms = self.cone(path.iter().map(|p| p.0).chain(n.iter().map(|p| p.0)).chain(facts));
        for a in &atoms {
            if let Atom::Prod(..) = self.atom(*a) {
                continue;
            }
            let _ = writeln!(s, "(declare-const a{a} {sort})");
        }
        let mut ax = vec![];
        for (i, a) in atoms.iter().enumerate() {
            self.axioms(*a, true, &mut ax);
            let k = ax.len();
            for b in &atoms[..i] {
                if self.mode == Mode::Real && matches!((self.atom(*a), self.atom(*b)), (Atom::Hypot(..), Atom::Hypot(..))) {
                    continue;
                }
                self.pair_axioms(*a, *b, &mut ax);
            }
            if self.trig[*a as usize] {
                crate::trig::identities(self, *a, &atoms[..i], true, &mut ax);
            }
            // products are inlined in the exact stage
            for x in ax[k..].iter_mut() {
                *x = self.inline_products(x, &atoms);
            }
        }
        for x in ax {
            let _ = writeln!(s, "(assert {x})");
        }
        for (c, r) in &self.facts {
            let _ = writeln!(s, "{}", self.fact_text(c, r, true));
        }
        for (t, set) in path {
            let _ = writeln!(s, "(assert {})", self.sign_text(*t, *set, true));
        }
        if let Some((t, set)) = n {
            let _ = writeln!(s, "(assert {})", self.sign_text(t, set, true));
        }
        let vars = atoms.into_iter().filter(|a| matches!(self.atom(*a), Atom::Var(..))).collect();
        (s, vars)
    }
    fn inline_products(&self, x: &str, atoms: &[Aid]) -> String {
        let mut out = x.to_string();
        for a in atoms.iter().rev() {
            if let Atom::Prod(p, q) = self.atom(*a) {
                let name = format!("a{a}");
                if !out.contains(&name) {
                    continue;
                }
                let rep = format!("(* {} {})", self.text(*p, true), self.text(*q, true));
                let mut res = String::new();
                let mut rest = out.as_str();
                while let Some(i) = rest.find(&name) {
                    let after = rest[i + name.len()..].chars().next();
                    res.push_str(&rest[..i]);
                    if after.is_some_and(|c| c.is_ascii_digit()) {
                        res.push_str(&name);
                    } else {
                        res.push_str(&rep);
                    }
                    rest = &rest[i + name.len()..];
                }
                res.push_str(rest);
                out = res;
            }
        }
        out
    }
    fn nra_ready(&mut self) {
        if self.nra.is_none() {
            let mut z = Solver::new();
            z.send("(set-option :pp.decimal true)");
            z.send("(set-option :pp.decimal_precision 17)");
            z.send("(set-option :timeout 1500)");
            self.nra = Some(z);
        }
    }
    fn exact_feasible(&mut self, n: Tid, set: u8) -> (Res, Option<HashMap<Aid, f64>>) {
        if set == 0 {
            return (Res::Unsat, None);
        }
        let (script, vars) = self.exact_script(Some((n, set)));
        let trig = script.contains("a") && self.cone(self.path.iter().map(|p| p.0).chain([n])).iter().any(|a| matches!(self.atom(*a), Atom::F(..) | Atom::Atan2(..)));
        let part = if trig || std::env::var("SX_NOPART").is_ok() { None } else { self.polynomial_part(n).map(|v| self.script_of(&v, Some((n, set))).0) };
        self.nra_ready();
        let z = self.nra.as_mut().unwrap();
        let t0 = z.time;
        if let Some(sc) = part {
            z.send("(push)");
            z.send(&sc);
            let r = z.check_cmd("(check-sat-using (then simplify solve-eqs (try-for qfnra-nlsat 300)))");
            z.send("(pop)");
            if r == Res::Unsat {
                self.stats.exact_queries += 1;
                self.stats.exact_unsat += 1;
                self.stats.solver_s += (z.time - t0).as_secs_f64();
                return (r, None);
            }
            if z.tainted {
                self.nra = None;
                return self.exact_full(n, set, script, vars, trig);
            }
        }
        self.exact_full(n, set, script, vars, trig)
    }
    fn exact_full(&mut self, _n: Tid, _set: u8, script: String, vars: Vec<Aid>, trig: bool) -> (Res, Option<HashMap<Aid, f64>>) {
        self.nra_ready();
        let z = self.nra.as_mut().unwrap();
        let t0 = z.time;
        z.send("(push)");
        z.send(&script);
        let r = if trig { z.check() } else { z.check_cmd("(check-sat-using (then simplify solve-eqs (try-for qfnra-nlsat 1500)))") };
        let m = if r == Res::Sat { Some(Self::read_model(z, &vars)) } else { None };
        z.send("(pop)");
        let dt = (z.time - t0).as_secs_f64();
        if z.tainted {
            self.nra = None;
        }
        self.stats.exact_queries += 1;
        self.stats.solver_s += dt;
        match r {
            Res::Unsat => self.stats.exact_unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
            _ => {}
        }
        (r, m)
    }
    /// Decide the current path condition in the exact theory and produce input values.
    /// `tries` different models are offered to `accept` until it takes one.
    pub fn exact_models(&mut self, accept: &mut dyn FnMut(&[(String, f64)]) -> bool) -> (Res, bool) {
        let (script, vars) = self.exact_script(None);
        let mut z = Solver::new();
        z.send("(set-option :pp.decimal true)");
        z.send("(set-option :pp.decimal_precision 17)");
        z.send(&format!("(set-option :timeout {})", self.exact_ms));
        z.send(&script);
        let vars: Vec<(Aid, String)> = vars.into_iter().map(|a| (a, self.var_name(a))).collect();
        let get = |z: &mut Solver, vars: &[(Aid, String)]| -> Vec<(String, f64)> {
            if vars.is_empty() {
                return vec![];
            }
            let l: Vec<String> = vars.iter().map(|v| format!("a{}", v.0)).collect();
            let s = z.sexpr(&format!("(get-value ({}))", l.join(" ")));
            parse_values(&s).into_iter().zip(vars).map(|((_, v), (_, n))| (n.clone(), v)).collect()
        };
        let r = z.check();
        let mut taken = false;
        self.stats.exact_queries += 1;
        if r == Res::Unsat {
            self.stats.exact_unsat += 1;
        }
        if r == Res::Sat {
            taken = accept(&get(&mut z, &vars));
            // models on a dyadic grid replay exactly
            if !taken && self.mode == Mode::Real && !vars.is_empty() {
                for g in ["8.0", "64.0", "1024.0"] {
                    z.send("(set-option :timeout 6000)");
                    z.send("(push)");
                    for (a, _) in &vars {
                        z.send(&format!("(assert (is_int (* {g} a{a})))"));
                    }
                    for _ in 0..3 {
                        if z.check() != Res::Sat {
                            break;
                        }
                        let m = get(&mut z, &vars);
                        taken = accept(&m);
                        if taken {
                            break;
                        }
                        // ask for another one
                        let ne: Vec<String> = m
                            .iter()
                            .zip(&vars)
                            .filter_map(|((_, v), (a, _))| Rat::from_f64(*v).map(|r| format!("(= a{a} {})", r.smt())))
                            .collect();
                        if ne.len() != vars.len() {
                            break;
                        }
                        z.send(&format!("(assert (not (and {})))", ne.join(" ")));
                    }
                    z.send("(pop)");
                    if taken {
                        break;
                    }
                }
            }
        }
        if r == Res::Unknown {
            self.stats.unknown += 1;
        }
        self.stats.solver_s += z.time.as_secs_f64();
        (r, taken)
    }
    fn var_name(&self, a: Aid) -> String {
        match self.atom(a) {
            Atom::Var(n, ..) => n.clone(),
            _ => String::new(),
        }
    }
    /// Variable values on the current path: the running witness, or a model of the abstraction.
    pub fn abstract_model(&mut self) -> Option<Vec<(String, f64)>> {
        let vars = self.active_vars();
        if self.witness.is_none() {
            let z = self.solver();
            if z.check() != Res::Sat {
                return None;
            }
            let m = Self::read_model(z, &vars);
            self.witness = Some(m);
        }
        let w = self.witness.as_ref().unwrap();
        Some(vars.iter().filter_map(|a| w.get(a).map(|v| (self.var_name(*a), *v))).collect())
    }
    /// Models of the abstraction from all over the input space, offered to `accept` until it takes one.
    pub fn spread_models(&mut self, tries: usize, accept: &mut dyn FnMut(&[(String, f64)]) -> bool) -> bool {
        let vars = self.active_vars();
        if vars.is_empty() {
            return false;
        }
        let mut seed = 0x9E3779B97F4A7C15u64;
        let mut rnd = move || {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            (seed >> 11) as f64 / (1u64 << 53) as f64
        };
        let started = std::time::Instant::now();
        for i in 0..tries {
            if started.elapsed().as_secs() > 20 {
                break;
            }
            let mut text = vec![];
            for a in &vars {
                let (lo, hi) = self.bounds[*a as usize];
                if !(hi - lo).is_finite() || rnd() < 0.25 {
                    continue;
                }
                let w = (hi - lo) * [0.5, 0.25, 0.1][i % 3];
                let l = lo + (hi - lo - w) * rnd();
                let (l, h) = ((l * 1048576.0).round() / 1048576.0, ((l + w) * 1048576.0).round() / 1048576.0);
                if let (Some(l), Some(h)) = (Rat::from_f64(l), Rat::from_f64(h)) {
                    text.push(format!("(< {} a{a}) (< a{a} {})", l.smt(), h.smt()));
                }
            }
            let so = self.solver();
            so.send("(push)");
            so.send(&format!("(assert (and true {}))", text.join(" ")));
            let m = if so.check() == Res::Sat { Some(Self::read_model(so, &vars)) } else { None };
            so.send("(pop)");
            if let Some(m) = m {
                let m: Vec<(String, f64)> = vars.iter().filter_map(|a| m.get(a).map(|v| (self.var_name(*a), *v))).collect();
                if accept(&m) {
                    return true;
                }
            }
        }
        false
    }
    /// Concrete inputs for an abstract counterexample over trigonometric atoms: near its model, then all over
    /// the declared ranges.
    pub fn concretize(&mut self, accept: &mut dyn FnMut(&[(String, f64)]) -> bool) -> bool {
        if !self.active.iter().any(|a| self.trig[*a as usize]) {
            return false;
        }
        let vars = self.active_vars();
        let base: Vec<(String, f64)> = self.abstract_model().unwrap_or_default();
        if !base.is_empty() && accept(&base) {
            return true;
        }
        let mut seed = 0x9E3779B97F4A7C15u64;
        let mut rnd = move || {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            (seed >> 11) as f64 / (1u64 << 53) as f64
        };
        let info: Vec<(String, f64, f64)> = vars.iter().map(|a| (self.var_name(*a), self.bounds[*a as usize].0.max(-1e6), self.bounds[*a as usize].1.min(1e6))).collect();
        let known: HashMap<&str, f64> = base.iter().map(|(n, v)| (n.as_str(), *v)).collect();
        let secs = if self.searches < 4 { 3.0 } else { 0.3 };
        self.searches += 1;
        let started = std::time::Instant::now();
        let mut i = 0u64;
        while started.elapsed().as_secs_f64() < secs {
            i += 1;
            let scale = [1.0, 1.0, 0.25, 0.03][(i % 4) as usize];
            let m: Vec<(String, f64)> = info
                .iter()
                .map(|(n, lo, hi)| {
                    let b = known.get(n.as_str()).copied().unwrap_or(0.5 * (lo + hi));
                    let v = if scale == 1.0 { lo + (hi - lo) * rnd() } else { b + (hi - lo) * scale * (rnd() - 0.5) };
                    (n.clone(), v.max(*lo).min(*hi))
                })
                .collect();
            if accept(&m) {
                return true;
            }
        }
        false
    }
    // ---------------------------------------------------------------- exploration control
    pub fn begin_job(&mut self, prefix: Vec<Dec>) {
        self.pop_to(0);
        self.push();
        self.trail = prefix;
        for d in self.trail.iter_mut() {
            d.alts.clear();
        }
        self.synced = 0;
    }
    pub fn begin_path(&mut self) {
        self.pos = 0;
        self.memo.clear();
        self.path.clear();
        self.witness = None;
        self.facts.clear();
        self.observed.clear();
        self.path_started = std::time::Instant::now();
        self.reps.clear();
        self.steps = 0;
    }
    /// Move to the next unexplored path; false when this job is finished.
    pub fn backtrack(&mut self) -> bool {
        self.trail.truncate(self.pos.max(0));
        while let Some(d) = self.trail.last() {
            if d.alts.is_empty() {
                let lb = d.level_before;
                self.trail.pop();
                self.pop_to(lb);
                continue;
            }
            let lb = d.level_before;
            self.pop_to(lb);
            let d = self.trail.last_mut().unwrap();
            d.out = d.alts.pop().unwrap();
            self.synced = self.trail.len() - 1;
            return true;
        }
        self.pop_to(0);
        self.synced = 0;
        false
    }
    /// Give away the shallowest unexplored alternative as a job.
    pub fn donate(&mut self) -> Option<Vec<Dec>> {
        for i in 0..self.trail.len() {
            if !self.trail[i].alts.is_empty() {
                let o = self.trail[i].alts.pop().unwrap();
                let mut p: Vec<Dec> = self.trail[..=i].to_vec();
                for d in p.iter_mut() {
                    d.alts.clear();
                }
                p[i].out = o;
                return Some(p);
            }
        }
        None
    }
    pub fn flush_solver_stats(&mut self) {
        if let Some(s) = &mut self.solver {
            self.stats.queries += s.queries;
            self.stats.solver_s += s.time.as_secs_f64();
            s.queries = 0;
            s.time = std::time::Duration::ZERO;
        }
    }
    pub fn describe_path(&self) -> String {
        let mut s = String::new();
        for (t, set) in &self.path {
            let _ = writeln!(s, "{}", self.sign_text(*t, *set, true));
        }
        for a in self.cone(self.path.iter().map(|p| p.0)) {
            let _ = writeln!(s, "; a{a} = {:?}", self.atom(a));
        }
        s
    }
}
/// Range of cos(x - shift) for x in an interval.
fn wave(x: (f64, f64), shift: f64) -> (f64, f64) {
    let (l, h) = (x.0 - shift, x.1 - shift);
    if !(l.is_finite() && h.is_finite()) || h - l >= 6.28 {
        return (-1.0, 1.0);
    }
    let pi = std::f64::consts::PI;
    // does the interval contain a multiple of 2 pi, or an odd multiple of pi?
    let hit = |o: f64| ((h + 1e-9 - o) / (2.0 * pi)).floor() >= ((l - 1e-9 - o) / (2.0 * pi)).ceil();
    let (a, b) = (l.cos(), h.cos());
    let lo = if hit(pi) { -1.0 } else { (a.min(b) - 1e-12).max(-1.0) };
    let hi = if hit(0.0) { 1.0 } else { (a.max(b) + 1e-12).min(1.0) };
    (lo, hi)
}
/// Where an unconstrained variable is put.
pub fn default_value(lo: f64, hi: f64) -> f64 {
    if lo.is_finite() && hi.is_finite() {
        lo + (hi - lo) * 0.375
    } else {
        0.0
    }
}
/// A number standing for a symbolic value that the code turns into an f64: comparisons between
/// the magnitudes of such numbers agree with comparisons between the magnitudes of the values.
pub fn representative(t: Tid) -> f64 {
    with(|e| {
        if let Some(c) = e.as_const(t) {
            return c.to_f64();
        }
        match e.as_spec(t) {
            Some(Spec::NaN) => return f64::NAN,
            Some(Spec::PosInf) => return f64::INFINITY,
            Some(Spec::NegInf) => return f64::NEG_INFINITY,
            Some(Spec::Huge) => return f64::MAX,
            Some(Spec::NegHuge) => return f64::MIN,
            None => {}
        }
        let z = e.konst(Rat::ZERO);
        if e.decide(t, z, Rel::Eq) {
            return 0.0;
        }
        let neg = e.decide(t, z, Rel::Lt);
        let m = if neg { e.neg(t) } else { t };
        let (mut lo, mut hi) = (0.0f64, f64::INFINITY);
        for (o, v) in e.reps.clone() {
            if o == m || e.decide(m, o, Rel::Eq) {
                return if neg { -v } else { v };
            }
            if e.decide(m, o, Rel::Lt) {
                hi = hi.min(v);
            } else {
                lo = lo.max(v);
            }
        }
        let v = if hi.is_finite() { (lo + hi) / 2.0 } else { lo + 1.0 };
        e.reps.push((m, v));
        if neg {
            -v
        } else {
            v
        }
    })
}
pub fn flip(s: u8) -> u8 {
    (s & ZERO) | if s & NEG != 0 { POS } else { 0 } | if s & POS != 0 { NEG } else { 0 }
}
