//! `Nf`: a machine double with a running bound on its distance from the exact
//! real result.  The value part is exactly what f64 computes; the bound makes
//! the numeric replay sound: a contract counts as violated only when the two
//! sides differ by more than rounding can explain.
use num::traits::FloatConst;
use num::{Float, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cell::Cell;
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct Nf {
    pub v: f64,
    pub e: f64,
}
const U: f64 = f64::EPSILON / 2.0;

thread_local! {
    /// a comparison was within rounding error: the run proves nothing from here on
    pub static AMBIG: Cell<bool> = Cell::new(false);
    /// the scalar is an integer: division truncates
    pub static INT: Cell<bool> = Cell::new(false);
}
pub fn nf(v: f64) -> Nf {
    Nf { v, e: 0.0 }
}
fn mk(v: f64, e: f64) -> Nf {
    Nf { v, e: if e.is_nan() { f64::INFINITY } else { e } }
}
/// a NaN that no rounding error explains (a root or inverse function certainly outside its domain)
const NAN: Nf = Nf { v: f64::NAN, e: 0.0 };
fn sure_nan(a: &Nf) -> bool {
    a.v.is_nan() && a.e.is_finite()
}
/// the result of a library function: one ulp on top
fn lib(v: f64, e: f64) -> Nf {
    mk(v, e + 2.0 * U * v.abs())
}
impl Nf {
    #[inline(never)]
    pub fn add_(self, b: Nf) -> Nf {
        if sure_nan(&self) || sure_nan(&b) {
            return NAN;
        }
        let s = self.v + b.v;
        let bb = s - self.v;
        let t = (self.v - (s - bb)) + (b.v - bb);
        mk(s, self.e + b.e + t.abs())
    }
    #[inline(never)]
    pub fn mul_(self, b: Nf) -> Nf {
        if sure_nan(&self) || sure_nan(&b) {
            return NAN;
        }
        let p = self.v * b.v;
        let t = self.v.mul_add(b.v, -p);
        let t = if p.is_finite() && p.abs() < 1e-290 && p != 0.0 { t.abs() + 1e-300 } else { t.abs() };
        mk(p, self.v.abs() * b.e + b.v.abs() * self.e + self.e * b.e + t)
    }
    #[inline(never)]
    pub fn div_(self, b: Nf) -> Nf {
        if sure_nan(&self) || sure_nan(&b) {
            return NAN;
        }
        if INT.with(|x| x.get()) {
            let exact = self.e == 0.0 && b.e == 0.0 && b.v != 0.0;
            return mk((self.v / b.v).trunc(), if exact { 0.0 } else { f64::INFINITY });
        }
        if b.v == 0.0 && b.e == 0.0 {
            // certainly undefined
            return NAN;
        }
        let q = self.v / b.v;
        let r = (-q).mul_add(b.v, self.v);
        let d = b.v.abs() - b.e;
        if !(d > 0.0) {
            return mk(q, f64::INFINITY);
        }
        mk(q, (self.e + q.abs() * b.e + r.abs()) / d)
    }
}
macro_rules! bin {
    ($t:ident, $f:ident, $a:ident, $fa:ident, $x:expr) => {
        impl $t for Nf {
            type Output = Nf;
            #[inline(never)]
            fn $f(self, o: Nf) -> Nf {
                $x(self, o)
            }
        }
        impl $a for Nf {
            #[inline(never)]
            fn $fa(&mut self, o: Nf) {
                *self = $x(*self, o)
            }
        }
        impl<'a> $t<&'a Nf> for Nf {
            type Output = Nf;
            #[inline(never)]
            fn $f(self, o: &'a Nf) -> Nf {
                $x(self, *o)
            }
        }
    };
}
bin!(Add, add, AddAssign, add_assign, |a: Nf, b: Nf| a.add_(b));
bin!(Sub, sub, SubAssign, sub_assign, |a: Nf, b: Nf| a.add_(Nf { v: -b.v, e: b.e }));
bin!(Mul, mul, MulAssign, mul_assign, |a: Nf, b: Nf| a.mul_(b));
bin!(Div, div, DivAssign, div_assign, |a: Nf, b: Nf| a.div_(b));
bin!(Rem, rem, RemAssign, rem_assign, |a: Nf, b: Nf| mk(a.v % b.v, f64::INFINITY));
impl Neg for Nf {
    type Output = Nf;
    #[inline(never)]
    fn neg(self) -> Nf {
        Nf { v: -self.v, e: self.e }
    }
}
fn amb(a: &Nf, b: &Nf) {
    if sure_nan(a) || sure_nan(b) {
        return;
    }
    let e = a.e + b.e;
    if e > 0.0 && !((a.v - b.v).abs() > e) && (a.v.is_finite() && b.v.is_finite() || !e.is_finite()) {
        AMBIG.with(|x| x.set(true));
    }
}
impl PartialEq for Nf {
    #[inline(never)]
    fn eq(&self, o: &Nf) -> bool {
        amb(self, o);
        self.v == o.v
    }
}
impl PartialOrd for Nf {
    #[inline(never)]
    fn partial_cmp(&self, o: &Nf) -> Option<Ordering> {
        amb(self, o);
        self.v.partial_cmp(&o.v)
    }
}
impl std::iter::Sum for Nf {
    #[inline(never)]
    fn sum<I: Iterator<Item = Nf>>(it: I) -> Nf {
        it.fold(nf(0.0), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Nf> for Nf {
    #[inline(never)]
    fn sum<I: Iterator<Item = &'a Nf>>(it: I) -> Nf {
        it.fold(nf(0.0), |a, b| a + *b)
    }
}
impl std::iter::Product for Nf {
    #[inline(never)]
    fn product<I: Iterator<Item = Nf>>(it: I) -> Nf {
        it.fold(nf(1.0), |a, b| a * b)
    }
}
impl Zero for Nf {
    #[inline(never)]
    fn zero() -> Nf {
        nf(0.0)
    }
    #[inline(never)]
    fn is_zero(&self) -> bool {
        *self == nf(0.0)
    }
}
impl One for Nf {
    #[inline(never)]
    fn one() -> Nf {
        nf(1.0)
    }
}
impl Num for Nf {
    type FromStrRadixErr = ();
    #[inline(never)]
    fn from_str_radix(_: &str, _: u32) -> Result<Nf, ()> {
        Err(())
    }
}
impl ToPrimitive for Nf {
    #[inline(never)]
    fn to_i64(&self) -> Option<i64> {
        self.v.to_i64()
    }
    #[inline(never)]
    fn to_u64(&self) -> Option<u64> {
        self.v.to_u64()
    }
    #[inline(never)]
    fn to_f64(&self) -> Option<f64> {
        Some(self.v)
    }
}
impl NumCast for Nf {
    #[inline(never)]
    fn from<N: ToPrimitive>(n: N) -> Option<Nf> {
        n.to_f64().map(nf)
    }
}
impl Signed for Nf {
    #[inline(never)]
    fn abs(&self) -> Nf {
        mk(self.v.abs(), self.e)
    }
    #[inline(never)]
    fn abs_sub(&self, o: &Nf) -> Nf {
        if *self <= *o {
            nf(0.0)
        } else {
            *self - *o
        }
    }
    #[inline(never)]
    fn signum(&self) -> Nf {
        amb(self, &nf(0.0));
        nf(if self.v > 0.0 {
            1.0
        } else if self.v < 0.0 {
            -1.0
        } else {
            0.0
        })
    }
    #[inline(never)]
    fn is_positive(&self) -> bool {
        *self > nf(0.0)
    }
    #[inline(never)]
    fn is_negative(&self) -> bool {
        *self < nf(0.0)
    }
}
macro_rules! consts { ($($n:ident),*) => { impl FloatConst for Nf { $(fn $n() -> Nf { lib(<f64 as FloatConst>::$n(), 0.0) })* } } }
consts!(
    E, FRAC_1_PI, FRAC_1_SQRT_2, FRAC_2_PI, FRAC_2_SQRT_PI, FRAC_PI_2, FRAC_PI_3, FRAC_PI_4, FRAC_PI_6,
    FRAC_PI_8, LN_10, LN_2, LOG10_E, LOG2_E, PI, SQRT_2
);
fn unk(v: f64) -> Nf {
    mk(v, f64::INFINITY)
}
impl Float for Nf {
    #[inline(never)]
    fn nan() -> Nf {
        nf(f64::NAN)
    }
    #[inline(never)]
    fn infinity() -> Nf {
        nf(f64::INFINITY)
    }
    #[inline(never)]
    fn neg_infinity() -> Nf {
        nf(f64::NEG_INFINITY)
    }
    #[inline(never)]
    fn neg_zero() -> Nf {
        nf(-0.0)
    }
    #[inline(never)]
    fn min_value() -> Nf {
        nf(f64::MIN)
    }
    #[inline(never)]
    fn min_positive_value() -> Nf {
        nf(f64::MIN_POSITIVE)
    }
    #[inline(never)]
    fn max_value() -> Nf {
        nf(f64::MAX)
    }
    #[inline(never)]
    fn epsilon() -> Nf {
        nf(f64::EPSILON)
    }
    #[inline(never)]
    fn is_nan(self) -> bool {
        self.v.is_nan()
    }
    #[inline(never)]
    fn is_infinite(self) -> bool {
        self.v.is_infinite()
    }
    #[inline(never)]
    fn is_finite(self) -> bool {
        self.v.is_finite()
    }
    #[inline(never)]
    fn is_normal(self) -> bool {
        self.v.is_normal()
    }
    #[inline(never)]
    fn classify(self) -> std::num::FpCategory {
        self.v.classify()
    }
    #[inline(never)]
    fn floor(self) -> Nf {
        unk(self.v.floor())
    }
    #[inline(never)]
    fn ceil(self) -> Nf {
        unk(self.v.ceil())
    }
    #[inline(never)]
    fn round(self) -> Nf {
        unk(self.v.round())
    }
    #[inline(never)]
    fn trunc(self) -> Nf {
        unk(self.v.trunc())
    }
    #[inline(never)]
    fn fract(self) -> Nf {
        unk(self.v.fract())
    }
    #[inline(never)]
    fn abs(self) -> Nf {
        mk(self.v.abs(), self.e)
    }
    #[inline(never)]
    fn signum(self) -> Nf {
        amb(&self, &nf(0.0));
        nf(self.v.signum())
    }
    #[inline(never)]
    fn is_sign_positive(self) -> bool {
        amb(&self, &nf(0.0));
        self.v.is_sign_positive()
    }
    #[inline(never)]
    fn is_sign_negative(self) -> bool {
        amb(&self, &nf(0.0));
        self.v.is_sign_negative()
    }
    #[inline(never)]
    fn mul_add(self, a: Nf, b: Nf) -> Nf {
        let v = self.v.mul_add(a.v, b.v);
        let x = self * a + b;
        mk(v, x.e + (x.v - v).abs())
    }
    #[inline(never)]
    fn recip(self) -> Nf {
        nf(1.0) / self
    }
    #[inline(never)]
    fn powi(self, n: i32) -> Nf {
        let mut r = nf(1.0);
        for _ in 0..n.unsigned_abs() {
            r = r * self;
        }
        let r = if n < 0 { nf(1.0) / r } else { r };
        let v = self.v.powi(n);
        mk(v, r.e + (r.v - v).abs())
    }
    #[inline(never)]
    fn powf(self, n: Nf) -> Nf {
        let r = (self.ln() * n).exp();
        let v = self.v.powf(n.v);
        if self.v > 0.0 {
            mk(v, r.e + (r.v - v).abs())
        } else if self.e == 0.0 && n.e == 0.0 && n.v.fract() == 0.0 {
            lib(v, 0.0)
        } else {
            unk(v)
        }
    }
    #[inline(never)]
    fn sqrt(self) -> Nf {
        if sure_nan(&self) {
            return NAN;
        }
        let v = self.v.sqrt();
        if self.v > self.e {
            let r = v.mul_add(-v, self.v);
            mk(v, (self.e + r.abs()) / (v + (self.v - self.e).sqrt()))
        } else if self.v == 0.0 && self.e == 0.0 {
            nf(0.0)
        } else if self.v >= 0.0 {
            mk(v, (self.v + self.e).sqrt() + v)
        } else {
            if -self.v > 4.0 * self.e {
                return NAN;
            }
            if -self.v <= 4.0 * self.e {
                AMBIG.with(|x| x.set(true));
            }
            mk(v, f64::INFINITY)
        }
    }
    #[inline(never)]
    fn exp(self) -> Nf {
        if sure_nan(&self) {
            return NAN;
        }
        let v = self.v.exp();
        lib(v, v * self.e.exp_m1())
    }
    #[inline(never)]
    fn exp2(self) -> Nf {
        unk(self.v.exp2())
    }
    #[inline(never)]
    fn ln(self) -> Nf {
        if sure_nan(&self) {
            return NAN;
        }
        let v = self.v.ln();
        if self.v == 1.0 && self.e == 0.0 {
            return nf(0.0);
        }
        if self.v > self.e {
            lib(v, -(-self.e / self.v).ln_1p())
        } else {
            unk(v)
        }
    }
    #[inline(never)]
    fn log(self, b: Nf) -> Nf {
        self.ln() / b.ln()
    }
    #[inline(never)]
    fn log2(self) -> Nf {
        self.ln() / nf(2.0).ln()
    }
    #[inline(never)]
    fn log10(self) -> Nf {
        self.ln() / nf(10.0).ln()
    }
    #[inline(never)]
    fn max(self, o: Nf) -> Nf {
        if self.v >= o.v {
            mk(self.v, self.e.max(o.e))
        } else {
            mk(o.v, self.e.max(o.e))
        }
    }
    #[inline(never)]
    fn min(self, o: Nf) -> Nf {
        if self.v <= o.v {
            mk(self.v, self.e.max(o.e))
        } else {
            mk(o.v, self.e.max(o.e))
        }
    }
    #[inline(never)]
    fn abs_sub(self, o: Nf) -> Nf {
        Signed::abs_sub(&self, &o)
    }
    #[inline(never)]
    fn cbrt(self) -> Nf {
        unk(self.v.cbrt())
    }
    #[inline(never)]
    fn hypot(self, o: Nf) -> Nf {
        let r = (self * self + o * o).sqrt();
        let v = self.v.hypot(o.v);
        mk(v, r.e + (r.v - v).abs())
    }
    #[inline(never)]
    fn sin(self) -> Nf {
        if sure_nan(&self) {
            return NAN;
        }
        if self.v == 0.0 && self.e == 0.0 {
            return self;
        }
        lib(self.v.sin(), self.e)
    }
    #[inline(never)]
    fn cos(self) -> Nf {
        if sure_nan(&self) {
            return NAN;
        }
        if self.v == 0.0 && self.e == 0.0 {
            return nf(1.0);
        }
        lib(self.v.cos(), self.e.min(self.e * (self.v.sin().abs() + self.e)))
    }
    #[inline(never)]
    fn tan(self) -> Nf {
        if sure_nan(&self) {
            return NAN;
        }
        let v = self.v.tan();
        lib(v, self.e * (1.0 + v * v) * 2.0)
    }
    #[inline(never)]
    fn asin(self) -> Nf {
        if sure_nan(&self) {
            return NAN;
        }
        let v = self.v.asin();
        let g = 1.0 - (self.v.abs() + self.e) * (self.v.abs() + self.e);
        if g > 0.0 {
            lib(v, self.e / g.sqrt())
        } else if self.v.abs() <= 1.0 && self.e == 0.0 {
            lib(v, 0.0)
        } else {
            if self.v.abs() - 1.0 > 4.0 * self.e && self.e.is_finite() {
                // certainly outside the domain
                return NAN;
            }
            if self.v.abs() > 1.0 {
                AMBIG.with(|x| x.set(true));
            }
            lib(v, (4.0 * self.e + 2.0 * (1.0 - self.v.abs()).max(0.0)).sqrt())
        }
    }
    #[inline(never)]
    fn acos(self) -> Nf {
        if sure_nan(&self) {
            return NAN;
        }
        let r = self.asin();
        if sure_nan(&r) {
            return NAN;
        }
        if self.v == 1.0 && self.e == 0.0 {
            return nf(0.0);
        }
        mk(self.v.acos(), r.e + 2.0 * U * 4.0)
    }
    #[inline(never)]
    fn atan(self) -> Nf {
        if sure_nan(&self) {
            return NAN;
        }
        lib(self.v.atan(), self.e)
    }
    #[inline(never)]
    fn atan2(self, x: Nf) -> Nf {
        if sure_nan(&self) || sure_nan(&x) {
            return NAN;
        }
        let v = self.v.atan2(x.v);
        if self.e == 0.0 && x.e == 0.0 {
            return lib(v, 0.0);
        }
        let n = (self.v.abs() - self.e).max(0.0).hypot((x.v.abs() - x.e).max(0.0));
        // the branch cut
        if x.v < x.e && self.v.abs() <= self.e && self.e > 0.0 {
            AMBIG.with(|x| x.set(true));
        }
        lib(v, (self.e + x.e) / n)
    }
    #[inline(never)]
    fn sin_cos(self) -> (Nf, Nf) {
        (self.sin(), self.cos())
    }
    #[inline(never)]
    fn exp_m1(self) -> Nf {
        let r = self.exp() - nf(1.0);
        mk(self.v.exp_m1(), r.e * 2.0)
    }
    #[inline(never)]
    fn ln_1p(self) -> Nf {
        let r = (self + nf(1.0)).ln();
        mk(self.v.ln_1p(), r.e * 2.0)
    }
    #[inline(never)]
    fn sinh(self) -> Nf {
        lib(self.v.sinh(), (self.v.abs() + self.e).cosh() * self.e)
    }
    #[inline(never)]
    fn cosh(self) -> Nf {
        lib(self.v.cosh(), (self.v.abs() + self.e).cosh() * self.e)
    }
    #[inline(never)]
    fn tanh(self) -> Nf {
        lib(self.v.tanh(), self.e)
    }
    #[inline(never)]
    fn asinh(self) -> Nf {
        unk(self.v.asinh())
    }
    #[inline(never)]
    fn acosh(self) -> Nf {
        unk(self.v.acosh())
    }
    #[inline(never)]
    fn atanh(self) -> Nf {
        unk(self.v.atanh())
    }
    #[inline(never)]
    fn integer_decode(self) -> (u64, i16, i8) {
        self.v.integer_decode()
    }
}
impl std::fmt::Debug for Nf {
    #[inline(never)]
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:?}", self.v)
    }
}
impl std::fmt::Display for Nf {
    #[inline(never)]
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "⟨{:x}:{}⟩", self.v.to_bits(), f.precision().map_or(-1, |p| p as i64))
    }
}
