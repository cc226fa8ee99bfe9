//! Exact rationals on i128 (checked: an overflow is an engine error, never a wrong value).
use std::cmp::Ordering;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}
fn gcd(mut a: i128, mut b: i128) -> i128 {
    if a == 1 || b == 1 {
        return 1;
    }
    // powers of two are frequent: shift them out, and use 64-bit remainders when they fit
    if a != 0 && b != 0 {
        let (ua, ub) = (a.unsigned_abs(), b.unsigned_abs());
        let (sa, sb) = (ua.trailing_zeros(), ub.trailing_zeros());
        let s = sa.min(sb);
        let (ua, ub) = (ua >> sa, ub >> sb);
        if ua == 1 || ub == 1 {
            return 1i128 << s;
        }
        if ua <= u64::MAX as u128 && ub <= u64::MAX as u128 {
            let (mut x, mut y) = (ua as u64, ub as u64);
            while y != 0 {
                let t = x % y;
                x = y;
                y = t;
            }
            return (x as i128) << s;
        }
    }
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a.abs()
}
fn ovf() -> ! {
    crate::engine::engine_error("rational overflow in constant folding")
}
impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn new(n: i128, d: i128) -> Rat {
        if d == 1 {
            return Rat { n, d };
        }
        let g = gcd(n, d);
        let (mut n, mut d) = if g == 0 { (0, 1) } else { (n / g, d / g) };
        if d < 0 {
            n = -n;
            d = -d;
        }
        Rat { n, d }
    }
    pub fn int(n: i64) -> Rat {
        Rat { n: n as i128, d: 1 }
    }
    /// Exact value of a finite f64.
    pub fn from_f64(v: f64) -> Option<Rat> {
        if v == 0.0 {
            return Some(Rat::ZERO);
        }
        if !v.is_finite() {
            return None;
        }
        let b = v.to_bits();
        let e = ((b >> 52) & 0x7ff) as i64;
        let m = (b & ((1u64 << 52) - 1)) as i128;
        let (mut m, mut e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
        while m & 1 == 0 {
            m >>= 1;
            e += 1;
        }
        if b >> 63 == 1 {
            m = -m;
        }
        if e >= 0 {
            if e > 70 {
                return None;
            }
            Some(Rat { n: m << e, d: 1 })
        } else {
            if e < -120 {
                return None;
            }
            Some(Rat { n: m, d: 1i128 << (-e) })
        }
    }
    pub fn to_f64(self) -> f64 {
        // exact for dyadics with <= 53 bit numerators, otherwise nearest to a few ulp
        let (n, d) = (self.n, self.d);
        if n.unsigned_abs() < (1 << 53) && d < (1 << 62) && (d & (d - 1)) == 0 {
            return n as f64 / d as f64;
        }
        n as f64 / d as f64
    }
    pub fn add(self, o: Rat) -> Rat {
        if self.d == o.d {
            return Rat::new(self.n.checked_add(o.n).unwrap_or_else(|| ovf()), self.d);
        }
        let g = gcd(self.d, o.d);
        let l = o.d / g;
        let a = self.n.checked_mul(l).unwrap_or_else(|| ovf());
        let b = o.n.checked_mul(self.d / g).unwrap_or_else(|| ovf());
        Rat::new(
            a.checked_add(b).unwrap_or_else(|| ovf()),
            self.d.checked_mul(l).unwrap_or_else(|| ovf()),
        )
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn sub(self, o: Rat) -> Rat {
        self.add(o.neg())
    }
    pub fn mul(self, o: Rat) -> Rat {
        if self.d == 1 && o.d == 1 {
            return Rat { n: self.n.checked_mul(o.n).unwrap_or_else(|| ovf()), d: 1 };
        }
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        Rat::new(
            (self.n / g1).checked_mul(o.n / g2).unwrap_or_else(|| ovf()),
            (self.d / g2).checked_mul(o.d / g1).unwrap_or_else(|| ovf()),
        )
    }
    pub fn inv(self) -> Rat {
        assert!(self.n != 0);
        Rat::new(self.d, self.n)
    }
    pub fn div(self, o: Rat) -> Rat {
        self.mul(o.inv())
    }
    pub fn sgn(self) -> i32 {
        self.n.signum() as i32
    }
    pub fn cmp(self, o: Rat) -> Ordering {
        self.sub(o).n.cmp(&0)
    }
    /// Exact square root if the value is the square of a rational.
    pub fn sqrt_exact(self) -> Option<Rat> {
        fn isq(v: i128) -> Option<i128> {
            if v < 0 {
                return None;
            }
            let mut r = (v as f64).sqrt() as i128;
            while r * r > v {
                r -= 1;
            }
            while (r + 1) * (r + 1) <= v {
                r += 1;
            }
            (r * r == v).then_some(r)
        }
        if self.n.unsigned_abs() > 1 << 100 || self.d > 1 << 100 {
            return None;
        }
        Some(Rat { n: isq(self.n)?, d: isq(self.d)? })
    }
    pub fn smt(self) -> String {
        let a = if self.d == 1 {
            format!("{}.0", self.n.unsigned_abs())
        } else {
            format!("(/ {}.0 {}.0)", self.n.unsigned_abs(), self.d)
        };
        if self.n < 0 {
            format!("(- {a})")
        } else {
            a
        }
    }
    pub fn smt_int(self) -> String {
        if self.d != 1 {
            crate::engine::engine_error("non-integer constant in integer mode");
        }
        if self.n < 0 {
            format!("(- {})", self.n.unsigned_abs())
        } else {
            format!("{}", self.n)
        }
    }
}
