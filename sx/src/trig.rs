//! Facts about the trigonometric functions offered to the solver.
use crate::engine::{Aid, Atom, Engine, Fun, Tid};

const PI_LO: &str = "(/ 31415926535897932.0 10000000000000000.0)";
const PI_HI: &str = "(/ 31415926535897933.0 10000000000000000.0)";
const H_LO: &str = "(/ 15707963267948966.0 10000000000000000.0)";
const H_HI: &str = "(/ 15707963267948967.0 10000000000000000.0)";

pub fn fun_axioms(f: Fun, b: (f64, f64), n: &str, t: &str, exact: bool, lean: bool, out: &mut Vec<String>) {
    if f != Fun::Sqrt && b.0.is_finite() && b.1.is_finite() {
        // outwards, in decimals
        let (lo, hi) = match f {
            Fun::Sin | Fun::Cos => ((b.0 - 1e-15).max(-1.0), (b.1 + 1e-15).min(1.0)),
            _ => (b.0 - 1e-15, b.1 + 1e-15),
        };
        out.push(format!("(and (<= {} {n}) (<= {n} {}))", decimal(lo), decimal(hi)));
    }
    if lean && matches!(f, Fun::Sin | Fun::Cos) {
        return;
    }
    match f {
        Fun::Sqrt => {
            out.push(format!("(>= {n} 0.0)"));
            out.push(format!("(= (= {n} 0.0) (<= {t} 0.0))"));
            out.push(format!("(= (< {n} 1.0) (< {t} 1.0))"));
            out.push(format!("(= (> {n} 1.0) (> {t} 1.0))"));
            if exact {
                out.push(format!("(=> (>= {t} 0.0) (= (* {n} {n}) {t}))"));
            }
        }
        Fun::Sin => {
            out.push(format!("(=> (and (> {t} 0.0) (< {t} {PI_LO})) (> {n} 0.0))"));
            out.push(format!("(=> (and (< {t} 0.0) (> {t} (- {PI_LO}))) (< {n} 0.0))"));
            out.push(format!("(=> (= {t} 0.0) (= {n} 0.0))"));
            out.push(format!("(=> (>= {t} 0.0) (and (<= {n} {t}) (>= {n} (- {t}))))"));
            out.push(format!("(=> (<= {t} 0.0) (and (>= {n} {t}) (<= {n} (- {t}))))"));
        }
        Fun::Cos => {
            out.push(format!("(=> (and (> {t} (- {H_LO})) (< {t} {H_LO})) (> {n} 0.0))"));
            out.push(format!("(=> (and (> {t} {H_HI}) (< {t} (* 3.0 {H_LO}))) (< {n} 0.0))"));
            out.push(format!("(=> (and (< {t} (- {H_HI})) (> {t} (- (* 3.0 {H_LO})))) (< {n} 0.0))"));
            out.push(format!("(=> (= {t} 0.0) (= {n} 1.0))"));
        }
        Fun::Asin => {
            out.push(format!("(= (< {n} 0.0) (< {t} 0.0))"));
            out.push(format!("(= (> {n} 0.0) (> {t} 0.0))"));
        }
        Fun::Acos => {
            out.push(format!("(= (= {n} 0.0) (>= {t} 1.0))"));
        }
        Fun::Atan | Fun::Tan => {}
    }
}
pub fn atan2_axioms(n: &str, y: &str, x: &str, out: &mut Vec<String>) {
    out.push(format!("(=> (> {y} 0.0) (and (> {n} 0.0) (< {n} {PI_HI})))"));
    out.push(format!("(=> (< {y} 0.0) (and (< {n} 0.0) (> {n} (- {PI_HI}))))"));
    out.push(format!("(=> (and (= {y} 0.0) (>= {x} 0.0)) (= {n} 0.0))"));
    out.push(format!("(=> (>= {y} 0.0) (>= {n} 0.0))"));
    out.push(format!("(=> (> {x} 0.0) (and (< {n} {H_HI}) (> {n} (- {H_HI}))))"));
}
pub fn pair_axioms(e: &Engine, a: Aid, b: Aid, out: &mut Vec<String>) {
    let (na, nb) = (format!("a{a}"), format!("a{b}"));
    if let (Atom::F(f, x), Atom::F(g, y)) = (e.atom(a), e.atom(b)) {
        let (t, u) = (e.text(*x, false), e.text(*y, false));
        // f < f' exactly when x < x' on a range where f increases
        let mono = |out: &mut Vec<String>, guard: &str, n: &str, m: &str, t: &str, u: &str| {
            out.push(format!("(=> {guard} (and (= (< {n} {m}) (< {t} {u})) (= (= {n} {m}) (= {t} {u}))))"));
        };
        let within = |t: &str, h: &str| format!("(<= {t} {h}) (>= {t} (- {h}))");
        match (f, g) {
            (Fun::Sqrt, Fun::Sqrt) => mono(out, &format!("(and (>= {t} 0.0) (>= {u} 0.0))"), &na, &nb, &t, &u),
            (Fun::Asin, Fun::Asin) | (Fun::Atan, Fun::Atan) => mono(out, "true", &na, &nb, &t, &u),
            (Fun::Acos, Fun::Acos) => mono(out, "true", &nb, &na, &t, &u),
            (Fun::Sin | Fun::Cos, Fun::Sin | Fun::Cos) if e.light => {
                if f == g && e.congruent {
                    out.push(format!("(=> (= {t} {u}) (= {na} {nb}))"));
                    out.push(format!("(=> (= {t} (- {u})) (= {na} {}))", if *f == Fun::Sin { format!("(- {nb})") } else { nb.clone() }));
                }
            }
            (Fun::Sin, Fun::Sin) => {
                mono(out, &format!("(and {} {})", within(&t, H_LO), within(&u, H_LO)), &na, &nb, &t, &u);
                out.push(format!("(=> (= {t} {u}) (= {na} {nb}))"));
            }
            (Fun::Cos, Fun::Cos) => {
                let ab = |s: &str| format!("(ite (>= {s} 0.0) {s} (- {s}))");
                let (at, au) = (ab(&t), ab(&u));
                mono(out, &format!("(and {} {})", within(&t, PI_LO), within(&u, PI_LO)), &nb, &na, &at, &au);
                out.push(format!("(=> (= {t} {u}) (= {na} {nb}))"));
            }
            // asin is the inverse of sin on [-pi/2, pi/2]
            (Fun::Asin, Fun::Sin) | (Fun::Sin, Fun::Asin) if e.envelopes => {}
            (Fun::Asin, Fun::Sin) => mono(out, &format!("(and {})", within(&u, H_LO)), &na, &u, &t, &nb),
            (Fun::Sin, Fun::Asin) => mono(out, &format!("(and {})", within(&t, H_LO)), &nb, &t, &u, &na),
            _ => {}
        }
    }
}
const PI: &str = "3.14159265358979323846";
const H: &str = "1.57079632679489661923";

fn decimal(v: f64) -> String {
    if v < 0.0 {
        format!("(- {:.18})", -v)
    } else {
        format!("{v:.18}")
    }
}
/// Facts about an atom together with those already in play.
pub fn identities(e: &Engine, a: Aid, others: &[Aid], exact: bool, out: &mut Vec<String>) {
    for o in others {
        if !e.is_trig(*o) {
            continue;
        }
        two(e, a, *o, exact, out);
        two(e, *o, a, exact, out);
    }
    if !e.light {
        square_pairs(e, a, others, exact, out);
    }
}
/// The argument, if the term is the one atom f(x).
fn arg_of(e: &Engine, t: Tid, f: Fun) -> Option<Tid> {
    match e.atom(e.lone(t)?) {
        Atom::F(g, x) if *g == f => Some(*x),
        _ => None,
    }
}
fn square_of(e: &Engine, a: Aid, f: Fun) -> Option<Tid> {
    match e.atom(a) {
        Atom::Prod(x, y) if x == y => arg_of(e, *x, f),
        _ => None,
    }
}
fn two(e: &Engine, a: Aid, b: Aid, exact: bool, out: &mut Vec<String>) {
    let (na, nb) = (e.aname(a, exact), e.aname(b, exact));
    match (e.atom(a), e.atom(b)) {
        (Atom::F(Fun::Sin, x), Atom::F(Fun::Cos, y)) if x == y => {
            if exact {
                out.push(format!("(= (+ (* {na} {na}) (* {nb} {nb})) 1.0)"));
            }
            out.push(format!("(and (<= (+ {na} {nb}) 1.41421357) (<= (- {na} {nb}) 1.41421357) (<= (- {nb} {na}) 1.41421357) (>= (+ {na} {nb}) (- 1.41421357)))"));
        }
        (Atom::Prod(..), Atom::F(Fun::Cos, y)) => {
            // double angle
            if let Some(v) = square_of(e, a, Fun::Sin) {
                if e.double_is(v, *y) {
                    out.push(format!("(= (+ (* 2.0 {na}) {nb}) 1.0)"));
                }
            }
            if let Some(v) = square_of(e, a, Fun::Cos) {
                if e.double_is(v, *y) {
                    out.push(format!("(= (- (* 2.0 {na}) {nb}) 1.0)"));
                }
            }
        }
        (Atom::Prod(x, y), Atom::Prod(..)) if x != y => {
            // cos u cos v = cos^2((u+v)/2) - sin^2((u-v)/2)
            if let (Some(u), Some(v), Some(w)) = (arg_of(e, *x, Fun::Cos), arg_of(e, *y, Fun::Cos), square_of(e, b, Fun::Sin)) {
                if e.half_sum_or_difference(w, u, v) {
                    out.push(format!("(and (<= (+ {na} {nb}) 1.0) (>= (+ {na} {nb}) 0.0))"));
                }
            }
        }
        _ => {}
    }
    if e.light {
        if let (Atom::Prod(x, y), Atom::Prod(u, v), false, true) = (e.atom(a), e.atom(b), exact || !e.congruent, a > b) {
            let t = |t: Tid| e.text(t, exact);
            for (u, v) in [(*u, *v), (*v, *u)] {
                out.push(format!("(=> (and (= {0} {1}) (= {2} {3})) (= {na} {nb}))", t(*x), t(u), t(*y), t(v)));
                out.push(format!("(=> (and (= {0} (- {1})) (= {2} (- {3}))) (= {na} {nb}))", t(*x), t(u), t(*y), t(v)));
                if u == v || x == y {
                    break;
                }
            }
        }
        return;
    }
    // order of products with a common factor
    if let (Atom::Prod(x, y), Atom::Prod(u, v), false, true) = (e.atom(a), e.atom(b), exact, a > b) {
        let t = |t: Tid| e.text(t, exact);
        let mut common = |c: Tid, p: Tid, q: Tid| {
            let (c, p, q) = (t(c), t(p), t(q));
            out.push(format!("(=> (>= {c} 0.0) (and (=> (<= {p} {q}) (<= {na} {nb})) (=> (>= {p} {q}) (>= {na} {nb}))))"));
            out.push(format!("(=> (> {c} 0.0) (and (=> (< {p} {q}) (< {na} {nb})) (=> (> {p} {q}) (> {na} {nb}))))"));
        };
        if x != y && u != v {
            match () {
                _ if x == u => common(*x, *y, *v),
                _ if x == v => common(*x, *y, *u),
                _ if y == u => common(*y, *x, *v),
                _ if y == v => common(*y, *x, *u),
                _ => {}
            }
        }
    }
}
/// Squares of sines are ordered as the distances of their angles from a multiple of pi.
fn square_pairs(e: &Engine, a: Aid, others: &[Aid], exact: bool, out: &mut Vec<String>) {
    let Some(v) = square_of(e, a, Fun::Sin) else { return };
    let near = |t: Tid| {
        let (lo, hi) = e.interval(t);
        if lo < -3.1416 || hi > 3.1416 {
            return None;
        }
        let s = e.text(t, exact);
        let m = format!("(ite (>= {s} 0.0) {s} (- {s}))");
        Some(if lo >= -1.57 && hi <= 1.57 { m } else { format!("(ite (<= {m} {H}) {m} (- {PI} {m}))") })
    };
    let Some(p) = near(v) else { return };
    let na = e.aname(a, exact);
    for o in others {
        if let Some(w) = square_of(e, *o, Fun::Sin) {
            if let Some(q) = near(w) {
                let nb = e.aname(*o, exact);
                out.push(format!("(and (= (< {p} {q}) (< {na} {nb})) (= (= {p} {q}) (= {na} {nb})))"));
            }
        }
    }
}

/// A dyadic fraction at or below (above) v.
fn below(v: f64) -> f64 {
    ((v - 1e-13) * GRID).floor() / GRID
}
fn above(v: f64) -> f64 {
    ((v + 1e-13) * GRID).ceil() / GRID
}
const GRID: f64 = (1u64 << 30) as f64;
fn dyadic(v: f64) -> String {
    crate::rat::Rat::from_f64(v).unwrap().smt()
}
/// Linear bounds of products (McCormick) and of sines and cosines (chords and tangents).
pub fn envelopes(e: &Engine, a: Aid, out: &mut Vec<String>) {
    let n = format!("a{a}");
    let small = |i: (f64, f64)| i.0 > -100.0 && i.1 < 100.0;
    match e.atom(a) {
        Atom::Prod(x, y) => {
            let (i, j) = (e.interval(*x), e.interval(*y));
            if !small(i) || !small(j) {
                return;
            }
            let outer = |i: (f64, f64)| if i.1 - i.0 > 1e-3 { (((i.0 - 1e-13) * 4096.0).floor() / 4096.0, ((i.1 + 1e-13) * 4096.0).ceil() / 4096.0) } else { (below(i.0), above(i.1)) };
            let ((xl, xh), (yl, yh)) = (outer(i), outer(j));
            let (tx, ty) = (e.text(*x, false), e.text(*y, false));
            let mut plane = |rel: &str, p: f64, q: f64| {
                // n rel q x + p y - p q   for the corner (p, q)
                let pq = crate::rat::Rat::from_f64(p).unwrap().mul(crate::rat::Rat::from_f64(q).unwrap());
                out.push(format!("({rel} (+ {n} {}) (+ (* {} {tx}) (* {} {ty})))", pq.smt(), dyadic(q), dyadic(p)));
            };
            plane(">=", xl, yl);
            plane(">=", xh, yh);
            if x == y {
                let m = ((xl + xh) * 512.0).round() / 1024.0;
                plane(">=", m, m);
                plane("<=", xl, yh);
            } else {
                plane("<=", xl, yh);
                plane("<=", xh, yl);
            }
        }
        Atom::F(f @ (Fun::Sin | Fun::Cos), x) => {
            let pi = std::f64::consts::PI;
            let (l, h) = e.interval(*x);
            if h - l > 3.0 || !small((l, h)) {
                return;
            }
            // as a sine of u = x + shift
            let shift = if *f == Fun::Sin { 0.0 } else { pi / 2.0 };
            let k = ((l + shift) / pi + 1e-9).floor();
            if (h + shift) / pi > k + 1.0 + 1e-9 || (l + shift) / pi < k {
                return;
            }
            let concave = k.rem_euclid(2.0) == 0.0;
            let g = |t: f64| (t + shift).sin();
            let t = e.text(*x, false);
            let grid = (1u64 << 14) as f64;
            let mut line = |m: f64, upper: bool| {
                let m = (m * grid).round() / grid;
                // extremes of g(t) - m t: at the ends and where g' = m
                let mut c: Vec<f64> = vec![g(l) - m * l, g(h) - m * h];
                let w = m.clamp(-1.0, 1.0).acos();
                for j in -40..=40 {
                    for s in [w, -w] {
                        let z = s + 2.0 * pi * j as f64 - shift;
                        if z >= l - 1e-6 && z <= h + 1e-6 {
                            c.push(g(z) - m * z);
                        }
                    }
                }
                let (rel, b) = if upper { ("<=", above(c.iter().cloned().fold(f64::MIN, f64::max) + 1e-12)) } else { (">=", below(c.iter().cloned().fold(f64::MAX, f64::min) - 1e-12)) };
                out.push(format!("({rel} {n} (+ (* {} {t}) {}))", dyadic(m), dyadic(b)));
            };
            let d = |t: f64| (t + shift).cos();
            let chord = if h - l > 1e-6 { (g(h) - g(l)) / (h - l) } else { 0.0 };
            line(chord, !concave);
            if h - l > 1e-6 {
                line(d(l), concave);
                line(d(h), concave);
                line(d((l + h) / 2.0), concave);
            } else {
                line(0.0, concave);
            }
        }
        _ => {}
    }
}
