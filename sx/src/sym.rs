//! The symbolic number `S`: a handle to a term of the engine, with every numeric trait the code
//! under test asks of its coordinate type.
use crate::engine::{engine_error, with, Fun, Rel, Spec, Tid};
use crate::rat::Rat;
use num_traits::{Bounded, Float, FloatConst, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::num::FpCategory;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct S(pub Tid);

pub fn lit(v: f64) -> S {
    S(with(|e| e.konst_f64(v)))
}
fn op2(a: S, b: S, f: impl FnOnce(&mut crate::engine::Engine, Tid, Tid) -> Tid) -> S {
    S(with(|e| f(e, a.0, b.0)))
}
fn un(a: S, f: impl FnOnce(&mut crate::engine::Engine, Tid) -> Tid) -> S {
    S(with(|e| f(e, a.0)))
}
fn rel(a: &S, b: &S, r: Rel) -> bool {
    with(|e| e.decide(a.0, b.0, r))
}
fn spec(a: S) -> Option<Spec> {
    with(|e| e.as_spec(a.0))
}
impl std::fmt::Debug for S {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Display::fmt(self, f)
    }
}
impl std::fmt::Display for S {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let t = crate::engine::ENG.with(|e| match e.try_borrow() {
            Ok(g) => match g.as_ref() {
                Some(e) => match (e.as_const(self.0), e.as_spec(self.0)) {
                    (Some(c), _) => Ok(c.to_f64()),
                    (_, Some(s)) => Err(format!("{s:?}")),
                    _ => Err(format!("<{}>", self.0)),
                },
                None => Err("?".into()),
            },
            Err(_) => Err("?".into()),
        });
        match t {
            Ok(v) => std::fmt::Display::fmt(&v, f),
            Err(s) => f.write_str(&s),
        }
    }
}
impl PartialEq for S {
    fn eq(&self, o: &S) -> bool {
        rel(self, o, Rel::Eq)
    }
}
impl PartialOrd for S {
    fn partial_cmp(&self, o: &S) -> Option<Ordering> {
        if spec(*self) == Some(Spec::NaN) || spec(*o) == Some(Spec::NaN) {
            return None;
        }
        Some(if rel(self, o, Rel::Lt) {
            Ordering::Less
        } else if rel(self, o, Rel::Eq) {
            Ordering::Equal
        } else {
            Ordering::Greater
        })
    }
    fn lt(&self, o: &S) -> bool {
        rel(self, o, Rel::Lt)
    }
    fn le(&self, o: &S) -> bool {
        rel(self, o, Rel::Le)
    }
    fn gt(&self, o: &S) -> bool {
        rel(o, self, Rel::Lt)
    }
    fn ge(&self, o: &S) -> bool {
        rel(o, self, Rel::Le)
    }
}
impl Add for S {
    type Output = S;
    fn add(self, o: S) -> S {
        op2(self, o, |e, a, b| e.add(a, b))
    }
}
impl Sub for S {
    type Output = S;
    fn sub(self, o: S) -> S {
        op2(self, o, |e, a, b| e.sub(a, b))
    }
}
impl Mul for S {
    type Output = S;
    fn mul(self, o: S) -> S {
        op2(self, o, |e, a, b| e.mul(a, b))
    }
}
impl Div for S {
    type Output = S;
    fn div(self, o: S) -> S {
        op2(self, o, |e, a, b| e.div(a, b))
    }
}
impl Rem for S {
    type Output = S;
    fn rem(self, o: S) -> S {
        op2(self, o, |e, a, b| e.rem(a, b))
    }
}
impl Neg for S {
    type Output = S;
    fn neg(self) -> S {
        un(self, |e, a| e.neg(a))
    }
}
macro_rules! assign {
    ($($t:ident $f:ident $op:tt),*) => {$(
        impl $t for S { fn $f(&mut self, o: S) { *self = *self $op o } }
    )*};
}
assign!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /, RemAssign rem_assign %);

impl Zero for S {
    fn zero() -> S {
        lit(0.0)
    }
    fn is_zero(&self) -> bool {
        *self == lit(0.0)
    }
}
impl One for S {
    fn one() -> S {
        lit(1.0)
    }
}
impl Num for S {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<S, ()> {
        engine_error("from_str_radix")
    }
}
impl ToPrimitive for S {
    fn to_i64(&self) -> Option<i64> {
        match with(|e| e.as_const(self.0)) {
            Some(c) => c.to_f64().to_i64(),
            None => engine_error("integer conversion of a symbolic value"),
        }
    }
    fn to_u64(&self) -> Option<u64> {
        match with(|e| e.as_const(self.0)) {
            Some(c) => c.to_f64().to_u64(),
            None => engine_error("integer conversion of a symbolic value"),
        }
    }
    fn to_f64(&self) -> Option<f64> {
        Some(crate::engine::representative(self.0))
    }
    fn to_f32(&self) -> Option<f32> {
        self.to_f64().map(|v| v as f32)
    }
}
impl NumCast for S {
    fn from<N: ToPrimitive>(n: N) -> Option<S> {
        n.to_f64().map(lit)
    }
}
impl Bounded for S {
    fn min_value() -> S {
        S(with(|e| e.spec(Spec::NegHuge)))
    }
    fn max_value() -> S {
        S(with(|e| e.spec(Spec::Huge)))
    }
}
impl Signed for S {
    fn abs(&self) -> S {
        un(*self, |e, a| e.abs(a))
    }
    fn abs_sub(&self, o: &S) -> S {
        if *self <= *o {
            lit(0.0)
        } else {
            *self - *o
        }
    }
    fn signum(&self) -> S {
        Float::signum(*self)
    }
    fn is_positive(&self) -> bool {
        *self > lit(0.0)
    }
    fn is_negative(&self) -> bool {
        *self < lit(0.0)
    }
}
impl float_next_after::NextAfter for S {
    fn next_after(self, _: S) -> S {
        engine_error("next_after")
    }
}
macro_rules! nope {
    ($($f:ident),*) => {$( fn $f(self) -> S { engine_error(concat!("unsupported operation ", stringify!($f))) } )*};
}
impl Float for S {
    fn nan() -> S {
        lit(f64::NAN)
    }
    fn infinity() -> S {
        lit(f64::INFINITY)
    }
    fn neg_infinity() -> S {
        lit(f64::NEG_INFINITY)
    }
    fn neg_zero() -> S {
        lit(0.0)
    }
    fn min_value() -> S {
        <S as Bounded>::min_value()
    }
    fn min_positive_value() -> S {
        lit(1e-30)
    }
    fn epsilon() -> S {
        lit(f64::EPSILON)
    }
    fn max_value() -> S {
        <S as Bounded>::max_value()
    }
    fn is_nan(self) -> bool {
        spec(self) == Some(Spec::NaN)
    }
    fn is_infinite(self) -> bool {
        matches!(spec(self), Some(Spec::PosInf) | Some(Spec::NegInf))
    }
    fn is_finite(self) -> bool {
        !matches!(spec(self), Some(Spec::PosInf) | Some(Spec::NegInf) | Some(Spec::NaN))
    }
    fn is_normal(self) -> bool {
        self.is_finite() && self != lit(0.0)
    }
    fn classify(self) -> FpCategory {
        match spec(self) {
            Some(Spec::NaN) => FpCategory::Nan,
            Some(Spec::PosInf) | Some(Spec::NegInf) => FpCategory::Infinite,
            _ => {
                if self == lit(0.0) {
                    FpCategory::Zero
                } else {
                    FpCategory::Normal
                }
            }
        }
    }
    nope!(floor, ceil, round, trunc, fract, exp, exp2, ln, log2, log10, cbrt, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    fn abs(self) -> S {
        un(self, |e, a| e.abs(a))
    }
    /// +1 or -1; the sign of zero is not tracked and taken as positive
    fn signum(self) -> S {
        if self.is_nan() {
            self
        } else if self < lit(0.0) {
            lit(-1.0)
        } else {
            lit(1.0)
        }
    }
    fn is_sign_positive(self) -> bool {
        !(self < lit(0.0))
    }
    fn is_sign_negative(self) -> bool {
        self < lit(0.0)
    }
    fn mul_add(self, a: S, b: S) -> S {
        self * a + b
    }
    fn recip(self) -> S {
        lit(1.0) / self
    }
    fn powi(self, n: i32) -> S {
        if n < 0 {
            return lit(1.0) / self.powi(-n);
        }
        let mut r = lit(1.0);
        for i in 0..n {
            r = if i == 0 { self } else { r * self };
        }
        r
    }
    fn powf(self, n: S) -> S {
        match with(|e| e.as_const(n.0)) {
            Some(c) if c.d == 1 && c.n.abs() <= 8 => self.powi(c.n as i32),
            Some(c) if c.d == 2 && c.n == 1 => self.sqrt(),
            _ => engine_error("powf"),
        }
    }
    fn sqrt(self) -> S {
        un(self, |e, a| e.fun(Fun::Sqrt, a))
    }
    fn log(self, _: S) -> S {
        engine_error("log")
    }
    fn to_degrees(self) -> S {
        self * lit(180.0f64 / std::f64::consts::PI)
    }
    fn to_radians(self) -> S {
        self * lit(std::f64::consts::PI / 180.0)
    }
    fn max(self, o: S) -> S {
        op2(self, o, |e, a, b| e.max(a, b))
    }
    fn min(self, o: S) -> S {
        op2(self, o, |e, a, b| e.min(a, b))
    }
    fn clamp(self, lo: S, hi: S) -> S {
        if self < lo {
            lo
        } else if self > hi {
            hi
        } else {
            self
        }
    }
    fn abs_sub(self, o: S) -> S {
        Signed::abs_sub(&self, &o)
    }
    fn hypot(self, o: S) -> S {
        op2(self, o, |e, a, b| e.hypot(a, b))
    }
    fn sin(self) -> S {
        un(self, |e, a| e.fun(Fun::Sin, a))
    }
    fn cos(self) -> S {
        un(self, |e, a| e.fun(Fun::Cos, a))
    }
    fn tan(self) -> S {
        un(self, |e, a| e.fun(Fun::Tan, a))
    }
    fn asin(self) -> S {
        un(self, |e, a| e.fun(Fun::Asin, a))
    }
    fn acos(self) -> S {
        un(self, |e, a| e.fun(Fun::Acos, a))
    }
    fn atan(self) -> S {
        un(self, |e, a| e.fun(Fun::Atan, a))
    }
    fn atan2(self, o: S) -> S {
        op2(self, o, |e, a, b| e.atan2(a, b))
    }
    fn sin_cos(self) -> (S, S) {
        (self.sin(), self.cos())
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        engine_error("integer_decode")
    }
}
macro_rules! consts {
    ($($c:ident),*) => {$( fn $c() -> S { lit(std::f64::consts::$c) } )*};
}
#[allow(non_snake_case)]
impl FloatConst for S {
    consts!(
        E, FRAC_1_PI, FRAC_1_SQRT_2, FRAC_2_PI, FRAC_2_SQRT_PI, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4, FRAC_PI_6, FRAC_PI_8, LN_10,
        LN_2, LOG10_E, LOG2_E, PI, SQRT_2
    );
}
pub struct Ker;
impl geo::algorithm::kernels::Kernel<S> for Ker {}
impl geo::GeoNum for S {
    type Ker = Ker;
    fn total_cmp(&self, o: &S) -> Ordering {
        let r = |s: &S| match spec(*s) {
            Some(Spec::NegInf) => -3,
            Some(Spec::NegHuge) => -2,
            None => 0,
            Some(Spec::Huge) => 2,
            Some(Spec::PosInf) => 3,
            Some(Spec::NaN) => 4,
        };
        let (a, b) = (r(self), r(o));
        if a != 0 || b != 0 {
            return a.cmp(&b);
        }
        self.partial_cmp(o).unwrap()
    }
}
impl quadtree::QtFloat for S {}
pub fn rat(v: f64) -> Rat {
    Rat::from_f64(v).unwrap()
}
