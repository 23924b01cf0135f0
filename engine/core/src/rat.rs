//! Exact rational numbers over i128.  Every operation is checked: an overflow
//! is reported as `None` and the caller gives up on the exact normal form
//! (it never silently wraps).
use std::cmp::Ordering;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}

pub fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a as i128
}

impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn int(n: i128) -> Rat {
        Rat { n, d: 1 }
    }
    pub fn trunc(self) -> Rat {
        Rat::int(self.n / self.d)
    }
    pub fn new(n: i128, d: i128) -> Option<Rat> {
        if d == 0 {
            return None;
        }
        let g = gcd(n, d);
        let (mut n, mut d) = (n / g, d / g);
        if d < 0 {
            n = n.checked_neg()?;
            d = d.checked_neg()?;
        }
        Some(Rat { n, d })
    }
    pub fn is_zero(&self) -> bool {
        self.n == 0
    }
    pub fn is_one(&self) -> bool {
        self.n == 1 && self.d == 1
    }
    pub fn is_int(&self) -> bool {
        self.d == 1
    }
    pub fn add(self, o: Rat) -> Option<Rat> {
        if self.d == 1 && o.d == 1 {
            return Some(Rat { n: self.n.checked_add(o.n)?, d: 1 });
        }
        let g = gcd(self.d, o.d);
        let l = self.d / g;
        let r = o.d / g;
        let n = self.n.checked_mul(r)?.checked_add(o.n.checked_mul(l)?)?;
        Rat::new(n, l.checked_mul(o.d)?)
    }
    pub fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
    pub fn sub(self, o: Rat) -> Option<Rat> {
        self.add(o.neg())
    }
    pub fn mul(self, o: Rat) -> Option<Rat> {
        if self.d == 1 && o.d == 1 {
            return Some(Rat { n: self.n.checked_mul(o.n)?, d: 1 });
        }
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        let n = (self.n / g1).checked_mul(o.n / g2)?;
        let d = (self.d / g2).checked_mul(o.d / g1)?;
        Some(Rat { n, d })
    }
    pub fn inv(self) -> Option<Rat> {
        Rat::new(self.d, self.n)
    }
    pub fn div(self, o: Rat) -> Option<Rat> {
        self.mul(o.inv()?)
    }
    pub fn signum(&self) -> i32 {
        self.n.signum() as i32
    }
    pub fn cmp(&self, o: &Rat) -> Option<Ordering> {
        Some(self.sub(*o)?.signum().cmp(&0))
    }
    pub fn to_f64(&self) -> f64 {
        self.n as f64 / self.d as f64
    }
    /// The rational a programmer means by an f64 literal: its shortest decimal
    /// representation (0.001 -> 1/1000).  None when it does not fit.
    pub fn from_f64(x: f64) -> Option<Rat> {
        if !x.is_finite() {
            return None;
        }
        if x == x.trunc() && x.abs() < 1e18 {
            return Some(Rat::int(x as i128));
        }
        let s = format!("{:e}", x);
        let (mant, exp) = s.split_once('e')?;
        let exp: i32 = exp.parse().ok()?;
        let neg = mant.starts_with('-');
        let mant = mant.trim_start_matches('-');
        let (ip, fp) = match mant.split_once('.') {
            Some((a, b)) => (a.to_string(), b.to_string()),
            None => (mant.to_string(), String::new()),
        };
        let digits: String = format!("{}{}", ip, fp);
        // more than 9 significant digits is not a "round" decimal: keep it exact as a dyadic if possible
        let n: i128 = digits.parse().ok()?;
        let e = exp - fp.len() as i32;
        let r = if e >= 0 {
            if e > 30 {
                return None;
            }
            Rat::new(n.checked_mul(10i128.checked_pow(e as u32)?)?, 1)?
        } else {
            if e < -36 {
                return None;
            }
            Rat::new(n, 10i128.checked_pow((-e) as u32)?)?
        };
        Some(if neg { r.neg() } else { r })
    }
    pub fn sqrt(&self) -> Option<Rat> {
        fn isqrt(n: i128) -> Option<i128> {
            if n < 0 {
                return None;
            }
            let mut r = (n as f64).sqrt() as i128;
            while r > 0 && r.checked_mul(r).map_or(true, |v| v > n) {
                r -= 1;
            }
            while (r + 1).checked_mul(r + 1).map_or(false, |v| v <= n) {
                r += 1;
            }
            if r * r == n {
                Some(r)
            } else {
                None
            }
        }
        Some(Rat { n: isqrt(self.n)?, d: isqrt(self.d)? })
    }
    pub fn show(&self) -> String {
        if self.d == 1 {
            format!("{}", self.n)
        } else {
            format!("{}/{}", self.n, self.d)
        }
    }
}
