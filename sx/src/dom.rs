//! The vocabulary scenarios are written in.  A scenario is one generic function; instantiated with
//! `S` it is executed symbolically, instantiated with `f64`, `f32` or `i32` the same function
//! replays concrete values against the real code.
use crate::engine::{default_value, with, Rel, Stop, ENG};
use crate::sym::S;
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Default)]
pub struct Native {
    pub values: HashMap<String, f64>,
    pub choices: Vec<u16>,
    pub next_choice: usize,
    pub observed: Vec<i64>,
    pub checks: u64,
    pub used: Vec<(String, f64)>,
}
thread_local! { pub static NAT: RefCell<Option<Native>> = const { RefCell::new(None) }; }

fn nat<R>(f: impl FnOnce(&mut Native) -> R) -> R {
    NAT.with(|n| f(n.borrow_mut().as_mut().expect("no native context")))
}
pub fn symbolic() -> bool {
    ENG.with(|e| e.borrow().is_some()) && NAT.with(|n| n.borrow().is_none())
}
pub fn prune() -> ! {
    std::panic::panic_any(Stop::Prune)
}
fn fail(what: &str) -> ! {
    std::panic::panic_any(Stop::Check(what.to_string()))
}
/// A property assertion.
pub fn chk(ok: bool, what: &str) {
    if symbolic() {
        with(|e| e.stats.checks += 1);
    } else {
        nat(|n| n.checks += 1);
    }
    if !ok {
        fail(what)
    }
}
pub fn assume(ok: bool) {
    if !ok {
        prune()
    }
}
/// Non-deterministic choice among n alternatives (all are explored).
pub fn choice(n: usize) -> usize {
    if symbolic() {
        with(|e| e.choice(n))
    } else if n <= 1 {
        0
    } else {
        nat(|c| {
            let v = c.choices.get(c.next_choice).copied().unwrap_or(0) as usize;
            c.next_choice += 1;
            v.min(n - 1)
        })
    }
}
pub fn flag() -> bool {
    choice(2) == 1
}
/// Something a symbolic path and its native replay must agree on.
pub fn observe(v: i64) {
    if symbolic() {
        with(|e| e.observed.push(v))
    } else {
        nat(|n| n.observed.push(v))
    }
}

pub trait Num0: geo::GeoNum + std::fmt::Display + std::ops::Neg<Output = Self> + 'static {
    fn k(v: f64) -> Self;
    fn var(name: &str, lo: f64, hi: f64) -> Self;
    fn assume_lt(self, o: Self);
    fn assume_le(self, o: Self);
    fn assume_eq(self, o: Self);
    /// self <= o up to rounding of the native replay (exact when symbolic)
    fn le_tol(self, o: Self) -> bool;
    fn nan() -> Self;
    /// can all of these hold together?
    fn all(conj: &[(Self, Rel, Self)]) -> bool;
    /// self < o by more than the rounding of the native replay
    fn clearly_less(self, o: Self) -> bool {
        self < o
    }
    /// a true implication the solver may use
    fn fact(_cond: &[(Self, Rel, Self)], _concl: &[(Self, Rel, Self)]) {}
    /// might one of these conjunctions hold?
    fn any(_alts: &[Vec<(Self, Rel, Self)>]) -> bool {
        true
    }
}
/// Assertion that the relations never hold together.
pub fn chk_never<T: Num0>(conj: &[(T, Rel, T)], what: &str) {
    let bad = T::all(conj);
    chk(!bad, what)
}
/// Assertion that none of the conjunctions ever holds.
pub fn chk_none<T: Num0>(alts: &[Vec<(T, Rel, T)>], what: &str) {
    if T::any(alts) {
        for a in alts {
            chk_never(a, what);
        }
    } else {
        chk(true, what);
    }
}
/// Assertion that no left side is smaller than or equal to the right one.  In a native replay equality
/// counts only for inputs on a dyadic grid, where the distances involved carry no rounding.
pub fn chk_beyond<T: Num0>(pairs: &[(T, T)], what: &str) {
    if symbolic() {
        let alts: Vec<Vec<(T, Rel, T)>> = pairs.iter().map(|(a, b)| vec![(*a, Rel::Le, *b)]).collect();
        chk_none(&alts, what)
    } else {
        let exact = nat(|n| n.used.iter().all(|(_, v)| (v * 1024.0).fract() == 0.0 && v.abs() < 1e6));
        chk(pairs.iter().all(|(a, b)| !a.clearly_less(*b) && !(exact && *a <= *b)), what)
    }
}
/// Assertion that no left side is smaller than its right side (beyond rounding in the replay).
pub fn chk_not_less<T: Num0>(pairs: &[(T, T)], what: &str) {
    if symbolic() {
        let alts: Vec<Vec<(T, Rel, T)>> = pairs.iter().map(|(a, b)| vec![(*a, Rel::Lt, *b)]).collect();
        chk_none(&alts, what)
    } else {
        chk(pairs.iter().all(|(a, b)| !a.clearly_less(*b)), what)
    }
}
pub use Rel::{Eq, Lt};
pub trait Dom: Num0 + quadtree::QtFloat {}
pub fn chk_le<T: Num0>(a: T, b: T, what: &str) {
    let ok = a.le_tol(b);
    chk(ok, what)
}
pub fn chk_eq<T: Num0>(a: T, b: T, what: &str) {
    let ok = a.le_tol(b) && b.le_tol(a);
    chk(ok, what)
}
/// 2^-30
pub const MARGIN: f64 = 1.0 / (1u64 << 30) as f64;
/// Equality up to a small absolute difference.
pub fn chk_close<T: Num0>(a: T, b: T, what: &str) {
    let e = T::k(MARGIN);
    chk_none(&[vec![(a + e, Rel::Lt, b)], vec![(b + e, Rel::Lt, a)]], what)
}
/// At most, up to a small absolute difference.
pub fn chk_le_close<T: Num0>(a: T, b: T, what: &str) {
    chk_none(&[vec![(b + T::k(MARGIN), Rel::Lt, a)]], what)
}
/// Rounding near antipodal points is worth 2e-8 in a great-circle distance.
pub const SPHERE: f64 = 1e-6;
pub fn chk_sph_le<T: Num0>(a: T, b: T, what: &str) {
    // exact where the two simplify to the same, else up to what the bounds of atoms are worth
    let ok = if symbolic() { a <= b + T::k(MARGIN) } else { a <= b + T::k(SPHERE) };
    chk(ok, what)
}
pub fn chk_sph_eq<T: Num0>(a: T, b: T, what: &str) {
    chk_sph_le(a, b, what);
    chk_sph_le(b, a, what)
}
/// None of the conjunctions of strict inequalities holds (by a margin in the native replay).
pub fn chk_sph_none<T: Num0>(alts: &[Vec<(T, T)>], what: &str) {
    if symbolic() {
        let with = |m: f64| -> Vec<Vec<(T, Rel, T)>> { alts.iter().map(|c| c.iter().map(|(a, b)| (*a + T::k(m), Rel::Lt, *b)).collect()).collect() };
        if T::any(&with(0.0)) {
            chk_none(&with(MARGIN), what)
        } else {
            chk(true, what)
        }
    } else {
        chk(!alts.iter().any(|c| c.iter().all(|(a, b)| *a + T::k(SPHERE) < *b)), what)
    }
}
pub fn eq_tol<T: Num0>(a: T, b: T) -> bool {
    a.le_tol(b) && b.le_tol(a)
}
impl Num0 for S {
    fn k(v: f64) -> S {
        crate::sym::lit(v)
    }
    fn var(name: &str, lo: f64, hi: f64) -> S {
        S(with(|e| e.var(name, lo, hi)))
    }
    fn assume_lt(self, o: S) {
        with(|e| e.assume(self.0, o.0, Rel::Lt))
    }
    fn assume_le(self, o: S) {
        with(|e| e.assume(self.0, o.0, Rel::Le))
    }
    fn assume_eq(self, o: S) {
        with(|e| e.assume(self.0, o.0, Rel::Eq))
    }
    fn le_tol(self, o: S) -> bool {
        self <= o
    }
    fn nan() -> S {
        crate::sym::lit(f64::NAN)
    }
    fn all(conj: &[(S, Rel, S)]) -> bool {
        let v: Vec<_> = conj.iter().map(|(a, r, b)| (a.0, b.0, *r)).collect();
        with(|e| e.possible(&v))
    }
    fn fact(cond: &[(S, Rel, S)], concl: &[(S, Rel, S)]) {
        let f = |v: &[(S, Rel, S)]| v.iter().map(|(a, r, b)| (a.0, b.0, *r)).collect::<Vec<_>>();
        with(|e| e.fact(&f(cond), &f(concl)))
    }
    fn any(alts: &[Vec<(S, Rel, S)>]) -> bool {
        let v: Vec<Vec<_>> = alts.iter().map(|c| c.iter().map(|(a, r, b)| (a.0, b.0, *r)).collect()).collect();
        with(|e| e.possible_any(&v))
    }
}
impl Dom for S {}
fn native_value(name: &str, lo: f64, hi: f64) -> f64 {
    nat(|n| {
        let v = match n.values.get(name) {
            Some(v) => *v,
            None => default_value(lo, hi),
        };
        let v = v.max(lo).min(hi);
        n.used.push((name.to_string(), v));
        v
    })
}
macro_rules! native_float {
    ($t:ident, $eps:expr) => {
        impl Num0 for $t {
            fn k(v: f64) -> $t {
                v as $t
            }
            fn var(name: &str, lo: f64, hi: f64) -> $t {
                native_value(name, lo, hi) as $t
            }
            fn assume_lt(self, o: $t) {
                assume(self < o)
            }
            fn assume_le(self, o: $t) {
                assume(self <= o)
            }
            fn assume_eq(self, o: $t) {
                assume(self == o)
            }
            fn le_tol(self, o: $t) -> bool {
                self <= o || self - o <= $eps * (1.0 + self.abs().min(1e30) + o.abs().min(1e30))
            }
            fn nan() -> $t {
                $t::NAN
            }
            fn all(conj: &[($t, Rel, $t)]) -> bool {
                conj.iter().all(|(a, r, b)| match r {
                    Rel::Lt => a < b,
                    Rel::Le => a <= b,
                    Rel::Eq => a == b,
                })
            }
            fn clearly_less(self, o: $t) -> bool {
                !o.le_tol(self)
            }
        }
        impl Dom for $t {}
    };
}
native_float!(f64, 1e-9);
native_float!(f32, 1e-4);
impl Num0 for i32 {
    fn k(v: f64) -> i32 {
        v as i32
    }
    fn var(name: &str, lo: f64, hi: f64) -> i32 {
        native_value(name, lo, hi).round() as i32
    }
    fn assume_lt(self, o: i32) {
        assume(self < o)
    }
    fn assume_le(self, o: i32) {
        assume(self <= o)
    }
    fn assume_eq(self, o: i32) {
        assume(self == o)
    }
    fn le_tol(self, o: i32) -> bool {
        self <= o
    }
    fn nan() -> i32 {
        prune()
    }
    fn all(conj: &[(i32, Rel, i32)]) -> bool {
                conj.iter().all(|(a, r, b)| match r {
                    Rel::Lt => a < b,
                    Rel::Le => a <= b,
                    Rel::Eq => a == b,
                })
            }
}
