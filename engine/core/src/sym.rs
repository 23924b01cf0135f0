//! `Sym`: the symbolic scalar.  A `Copy` handle to a term; implements the
//! numeric traits the code under verification is generic over.
use crate::eng::*;
use crate::rat::Rat;
use num::traits::FloatConst;
use num::{Float, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::ops::*;

#[derive(Clone, Copy)]
pub struct Sym(pub NodeId);

#[inline(never)]

fn k(x: f64) -> Sym {
    with(|e| {
        if x.is_nan() {
            return Sym(e.natom(AtomKind::Nan));
        }
        if x.is_infinite() {
            return Sym(e.natom(if x > 0.0 { AtomKind::Inf } else { AtomKind::NegInf }));
        }
        // the usual constants keep their exact meaning
        let pi = std::f64::consts::PI;
        for (v, r) in [
            (pi, Rat::ONE),
            (-pi, Rat::int(-1)),
            (pi / 2.0, Rat { n: 1, d: 2 }),
            (-pi / 2.0, Rat { n: -1, d: 2 }),
            (2.0 * pi, Rat::int(2)),
            (pi / 4.0, Rat { n: 1, d: 4 }),
            (pi / 3.0, Rat { n: 1, d: 3 }),
            (pi / 6.0, Rat { n: 1, d: 6 }),
        ] {
            if x == v {
                let p = e.pi();
                let c = e.konst(r);
                return Sym(e.mul(c, p));
            }
        }
        if x == f64::EPSILON {
            return Sym(e.natom(AtomKind::Eps));
        }
        if x == f64::MIN_POSITIVE {
            return Sym(e.natom(AtomKind::MinPos));
        }
        if x == f64::MAX {
            return Sym(e.natom(AtomKind::MaxV));
        }
        if x == f64::MIN {
            return Sym(e.natom(AtomKind::MinV));
        }
        match Rat::from_f64(x) {
            Some(r) if r.d < 1_000_000_000_000 && r.n.abs() < 1_000_000_000_000_000 => Sym(e.konst(r)),
            _ => Sym(e.natom(AtomKind::Named(x.to_bits()))),
        }
    })
}
pub fn lit(x: f64) -> Sym {
    k(x)
}
fn unsup(what: &'static str, a: Sym) -> Sym {
    with(|e| {
        e.unsupported.push(format!("Float::{}", what));
        Sym(e.natom(AtomKind::Fun(what, a.0)))
    })
}
fn q(a: Sym, mask: u8) -> bool {
    with(|e| e.query(a.0, mask))
}
/// comparison with the special values
fn special_cmp(a: Sym, b: Sym) -> Option<Option<Ordering>> {
    with(|e| {
        let (x, y) = (e.special(a.0), e.special(b.0));
        if x.is_none() && y.is_none() {
            return None;
        }
        if matches!(x, Some(AtomKind::Nan)) || matches!(y, Some(AtomKind::Nan)) {
            return Some(None);
        }
        let rank = |k: &Option<AtomKind>| match k {
            Some(AtomKind::Inf) => 2,
            Some(AtomKind::MaxV) => 1,
            None => 0,
            Some(AtomKind::MinV) => -1,
            _ => -2,
        };
        Some(Some(rank(&x).cmp(&rank(&y))))
    })
}
impl PartialEq for Sym {
    #[inline(never)]
    fn eq(&self, o: &Sym) -> bool {
        if let Some(r) = special_cmp(*self, *o) {
            return r == Some(Ordering::Equal);
        }
        if self.0 == o.0 {
            return true;
        }
        let d = with(|e| e.sub(self.0, o.0));
        q(Sym(d), ZER)
    }
}
impl PartialOrd for Sym {
    #[inline(never)]
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        if let Some(r) = special_cmp(*self, *o) {
            return r;
        }
        let d = Sym(with(|e| e.sub(self.0, o.0)));
        if q(d, NEG) {
            Some(Ordering::Less)
        } else if q(d, POS) {
            Some(Ordering::Greater)
        } else {
            Some(Ordering::Equal)
        }
    }
    #[inline(never)]
    fn lt(&self, o: &Sym) -> bool {
        cmp(*self, *o, NEG)
    }
    #[inline(never)]
    fn le(&self, o: &Sym) -> bool {
        cmp(*self, *o, NEG | ZER)
    }
    #[inline(never)]
    fn gt(&self, o: &Sym) -> bool {
        cmp(*self, *o, POS)
    }
    #[inline(never)]
    fn ge(&self, o: &Sym) -> bool {
        cmp(*self, *o, POS | ZER)
    }
}
fn cmp(a: Sym, b: Sym, mask: u8) -> bool {
    if let Some(r) = special_cmp(a, b) {
        let m = match r {
            Some(Ordering::Less) => NEG,
            Some(Ordering::Equal) => ZER,
            Some(Ordering::Greater) => POS,
            None => 0,
        };
        return m & mask != 0;
    }
    let d = Sym(with(|e| e.sub(a.0, b.0)));
    q(d, mask)
}
macro_rules! bin {
    ($t:ident, $f:ident, $a:ident, $fa:ident) => {
        impl $t for Sym {
            type Output = Sym;
            #[inline(never)]
            fn $f(self, o: Sym) -> Sym {
                Sym(with(|e| e.$f(self.0, o.0)))
            }
        }
        impl $a for Sym {
            #[inline(never)]
            fn $fa(&mut self, o: Sym) {
                *self = Sym(with(|e| e.$f(self.0, o.0)))
            }
        }
        impl<'a> $t<&'a Sym> for Sym {
            type Output = Sym;
            #[inline(never)]
            fn $f(self, o: &'a Sym) -> Sym {
                Sym(with(|e| e.$f(self.0, o.0)))
            }
        }
    };
}
bin!(Add, add, AddAssign, add_assign);
bin!(Sub, sub, SubAssign, sub_assign);
bin!(Mul, mul, MulAssign, mul_assign);
bin!(Div, div, DivAssign, div_assign);
impl Rem for Sym {
    type Output = Sym;
    #[inline(never)]
    fn rem(self, _: Sym) -> Sym {
        unsup("rem", self)
    }
}
impl Neg for Sym {
    type Output = Sym;
    #[inline(never)]
    fn neg(self) -> Sym {
        Sym(with(|e| e.neg(self.0)))
    }
}
impl std::iter::Sum for Sym {
    #[inline(never)]
    fn sum<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(Sym::zero(), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Sym> for Sym {
    #[inline(never)]
    fn sum<I: Iterator<Item = &'a Sym>>(it: I) -> Sym {
        it.fold(Sym::zero(), |a, b| a + *b)
    }
}
impl std::iter::Product for Sym {
    #[inline(never)]
    fn product<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(Sym::one(), |a, b| a * b)
    }
}
impl Zero for Sym {
    #[inline(never)]
    fn zero() -> Sym {
        Sym(with(|e| e.konst(Rat::ZERO)))
    }
    #[inline(never)]
    fn is_zero(&self) -> bool {
        *self == Sym::zero()
    }
}
impl One for Sym {
    #[inline(never)]
    fn one() -> Sym {
        Sym(with(|e| e.konst(Rat::ONE)))
    }
}
impl Num for Sym {
    type FromStrRadixErr = ();
    #[inline(never)]
    fn from_str_radix(_: &str, _: u32) -> Result<Sym, ()> {
        Err(())
    }
}
impl ToPrimitive for Sym {
    #[inline(never)]
    fn to_i64(&self) -> Option<i64> {
        self.to_f64().map(|x| x as i64)
    }
    #[inline(never)]
    fn to_u64(&self) -> Option<u64> {
        self.to_f64().map(|x| x as u64)
    }
    #[inline(never)]
    fn to_f64(&self) -> Option<f64> {
        with(|e| {
            if let Ok(r) = e.nf(self.0) {
                if let (Some(c), true) = (r.num.as_const(), r.den.is_empty()) {
                    return Some(c.to_f64());
                }
            }
            e.unsupported.push("conversion of a symbolic value to a machine number".into());
            None
        })
    }
}
impl NumCast for Sym {
    #[inline(never)]
    fn from<N: ToPrimitive>(n: N) -> Option<Sym> {
        n.to_f64().map(k)
    }
}
impl Signed for Sym {
    #[inline(never)]
    fn abs(&self) -> Sym {
        if let Some(n) = with(|e| if e.eager { e.abs_term(self.0) } else { None }) {
            return Sym(n);
        }
        if cmp(*self, Sym::zero(), POS | ZER) {
            *self
        } else {
            -*self
        }
    }
    #[inline(never)]
    fn abs_sub(&self, o: &Sym) -> Sym {
        if *self <= *o {
            Sym::zero()
        } else {
            *self - *o
        }
    }
    #[inline(never)]
    fn signum(&self) -> Sym {
        if q(*self, POS) {
            Sym::one()
        } else if q(*self, NEG) {
            -Sym::one()
        } else {
            Sym::zero()
        }
    }
    #[inline(never)]
    fn is_positive(&self) -> bool {
        cmp(*self, Sym::zero(), POS)
    }
    #[inline(never)]
    fn is_negative(&self) -> bool {
        cmp(*self, Sym::zero(), NEG)
    }
}
impl FloatConst for Sym {
    #[inline(never)]
    fn E() -> Sym {
        k(std::f64::consts::E)
    }
    #[inline(never)]
    fn FRAC_1_PI() -> Sym {
        Sym::one() / Sym::PI()
    }
    #[inline(never)]
    fn FRAC_1_SQRT_2() -> Sym {
        Sym::one() / Float::sqrt(k(2.0))
    }
    #[inline(never)]
    fn FRAC_2_PI() -> Sym {
        k(2.0) / Sym::PI()
    }
    #[inline(never)]
    fn FRAC_2_SQRT_PI() -> Sym {
        k(2.0) / Float::sqrt(Sym::PI())
    }
    #[inline(never)]
    fn FRAC_PI_2() -> Sym {
        k(0.5) * Sym::PI()
    }
    #[inline(never)]
    fn FRAC_PI_3() -> Sym {
        Sym::PI() / k(3.0)
    }
    #[inline(never)]
    fn FRAC_PI_4() -> Sym {
        k(0.25) * Sym::PI()
    }
    #[inline(never)]
    fn FRAC_PI_6() -> Sym {
        Sym::PI() / k(6.0)
    }
    #[inline(never)]
    fn FRAC_PI_8() -> Sym {
        k(0.125) * Sym::PI()
    }
    #[inline(never)]
    fn LN_10() -> Sym {
        Float::ln(k(10.0))
    }
    #[inline(never)]
    fn LN_2() -> Sym {
        Float::ln(k(2.0))
    }
    #[inline(never)]
    fn LOG10_E() -> Sym {
        k(std::f64::consts::LOG10_E)
    }
    #[inline(never)]
    fn LOG2_E() -> Sym {
        k(std::f64::consts::LOG2_E)
    }
    #[inline(never)]
    fn PI() -> Sym {
        Sym(with(|e| e.pi()))
    }
    #[inline(never)]
    fn SQRT_2() -> Sym {
        Float::sqrt(k(2.0))
    }
}
impl Float for Sym {
    #[inline(never)]
    fn nan() -> Sym {
        k(f64::NAN)
    }
    #[inline(never)]
    fn infinity() -> Sym {
        k(f64::INFINITY)
    }
    #[inline(never)]
    fn neg_infinity() -> Sym {
        k(f64::NEG_INFINITY)
    }
    #[inline(never)]
    fn neg_zero() -> Sym {
        Sym::zero()
    }
    #[inline(never)]
    fn min_value() -> Sym {
        k(f64::MIN)
    }
    #[inline(never)]
    fn min_positive_value() -> Sym {
        k(f64::MIN_POSITIVE)
    }
    #[inline(never)]
    fn max_value() -> Sym {
        k(f64::MAX)
    }
    #[inline(never)]
    fn epsilon() -> Sym {
        k(f64::EPSILON)
    }
    #[inline(never)]
    fn is_nan(self) -> bool {
        with(|e| e.special(self.0) == Some(AtomKind::Nan))
    }
    #[inline(never)]
    fn is_infinite(self) -> bool {
        with(|e| matches!(e.special(self.0), Some(AtomKind::Inf) | Some(AtomKind::NegInf)))
    }
    #[inline(never)]
    fn is_finite(self) -> bool {
        !self.is_nan() && !self.is_infinite()
    }
    #[inline(never)]
    fn is_normal(self) -> bool {
        unsup("is_normal", self);
        true
    }
    #[inline(never)]
    fn classify(self) -> std::num::FpCategory {
        unsup("classify", self);
        std::num::FpCategory::Normal
    }
    #[inline(never)]
    fn floor(self) -> Sym {
        unsup("floor", self)
    }
    #[inline(never)]
    fn ceil(self) -> Sym {
        unsup("ceil", self)
    }
    #[inline(never)]
    fn round(self) -> Sym {
        unsup("round", self)
    }
    #[inline(never)]
    fn trunc(self) -> Sym {
        unsup("trunc", self)
    }
    #[inline(never)]
    fn fract(self) -> Sym {
        unsup("fract", self)
    }
    #[inline(never)]
    fn abs(self) -> Sym {
        Signed::abs(&self)
    }
    #[inline(never)]
    fn signum(self) -> Sym {
        if q(self, POS | ZER) {
            Sym::one()
        } else {
            -Sym::one()
        }
    }
    #[inline(never)]
    fn is_sign_positive(self) -> bool {
        q(self, POS | ZER)
    }
    #[inline(never)]
    fn is_sign_negative(self) -> bool {
        q(self, NEG)
    }
    #[inline(never)]
    fn mul_add(self, a: Sym, b: Sym) -> Sym {
        self * a + b
    }
    #[inline(never)]
    fn recip(self) -> Sym {
        Sym::one() / self
    }
    #[inline(never)]
    fn powi(self, n: i32) -> Sym {
        let mut r = Sym::one();
        if n.unsigned_abs() > 64 {
            return unsup("powi", self);
        }
        for _ in 0..n.unsigned_abs() {
            r = r * self;
        }
        if n < 0 {
            Sym::one() / r
        } else {
            r
        }
    }
    #[inline(never)]
    fn powf(self, n: Sym) -> Sym {
        if let Some(c) = with(|e| match e.nf(n.0) {
            Ok(r) if r.den.is_empty() => r.num.as_const(),
            _ => None,
        }) {
            if c.is_int() && c.n.abs() < 64 {
                return self.powi(c.n as i32);
            }
            if c.d == 2 && c.n.abs() < 64 {
                return self.powi(c.n as i32).sqrt();
            }
        }
        (self.ln() * n).exp()
    }
    #[inline(never)]
    fn sqrt(self) -> Sym {
        Sym(with(|e| e.mk_sqrt(self.0)))
    }
    #[inline(never)]
    fn exp(self) -> Sym {
        Sym(with(|e| e.mk_exp(self.0)))
    }
    #[inline(never)]
    fn exp2(self) -> Sym {
        unsup("exp2", self)
    }
    #[inline(never)]
    fn ln(self) -> Sym {
        Sym(with(|e| e.mk_ln(self.0)))
    }
    #[inline(never)]
    fn log(self, b: Sym) -> Sym {
        self.ln() / b.ln()
    }
    #[inline(never)]
    fn log2(self) -> Sym {
        self.ln() / k(2.0).ln()
    }
    #[inline(never)]
    fn log10(self) -> Sym {
        self.ln() / k(10.0).ln()
    }
    #[inline(never)]
    fn max(self, o: Sym) -> Sym {
        if self >= o {
            self
        } else {
            o
        }
    }
    #[inline(never)]
    fn min(self, o: Sym) -> Sym {
        if self <= o {
            self
        } else {
            o
        }
    }
    #[inline(never)]
    fn abs_sub(self, o: Sym) -> Sym {
        Signed::abs_sub(&self, &o)
    }
    #[inline(never)]
    fn cbrt(self) -> Sym {
        unsup("cbrt", self)
    }
    #[inline(never)]
    fn hypot(self, o: Sym) -> Sym {
        (self * self + o * o).sqrt()
    }
    #[inline(never)]
    fn sin(self) -> Sym {
        Sym(with(|e| e.mk_sin_cos(self.0).0))
    }
    #[inline(never)]
    fn cos(self) -> Sym {
        Sym(with(|e| e.mk_sin_cos(self.0).1))
    }
    #[inline(never)]
    fn tan(self) -> Sym {
        // the poles (odd multiples of pi/2) are no machine number: no divisor obligation;
        // at the number nearest to one the tangent is huge, which is read as infinite (1/inf = 0)
        let (s, c) = self.sin_cos();
        Sym(with(|e| {
            if e.nf(c.0).map_or(false, |r| r.num.is_zero()) {
                return e.natom(AtomKind::Inf);
            }
            let n = e.divs.len();
            let r = e.div(s.0, c.0);
            e.divs.truncate(n);
            r
        }))
    }
    #[inline(never)]
    fn asin(self) -> Sym {
        k(0.5) * Sym::PI() - self.acos()
    }
    #[inline(never)]
    fn acos(self) -> Sym {
        Sym(with(|e| e.mk_acos(self.0)))
    }
    #[inline(never)]
    fn atan(self) -> Sym {
        self.atan2(Sym::one())
    }
    #[inline(never)]
    fn atan2(self, x: Sym) -> Sym {
        Sym(with(|e| e.mk_atan2(self.0, x.0)))
    }
    #[inline(never)]
    fn sin_cos(self) -> (Sym, Sym) {
        let (s, c) = with(|e| e.mk_sin_cos(self.0));
        (Sym(s), Sym(c))
    }
    #[inline(never)]
    fn exp_m1(self) -> Sym {
        self.exp() - Sym::one()
    }
    #[inline(never)]
    fn ln_1p(self) -> Sym {
        (self + Sym::one()).ln()
    }
    #[inline(never)]
    fn sinh(self) -> Sym {
        (self.exp() - (-self).exp()) / k(2.0)
    }
    #[inline(never)]
    fn cosh(self) -> Sym {
        (self.exp() + (-self).exp()) / k(2.0)
    }
    #[inline(never)]
    fn tanh(self) -> Sym {
        self.sinh() / self.cosh()
    }
    #[inline(never)]
    fn asinh(self) -> Sym {
        unsup("asinh", self)
    }
    #[inline(never)]
    fn acosh(self) -> Sym {
        unsup("acosh", self)
    }
    #[inline(never)]
    fn atanh(self) -> Sym {
        unsup("atanh", self)
    }
    #[inline(never)]
    fn integer_decode(self) -> (u64, i16, i8) {
        unsup("integer_decode", self);
        (0, 0, 0)
    }
}
impl std::fmt::Debug for Sym {
    #[inline(never)]
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "⟨{:x}:{}⟩", self.0, f.precision().map_or(-1, |p| p as i64))
    }
}
impl std::fmt::Display for Sym {
    #[inline(never)]
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "⟨{:x}:{}⟩", self.0, f.precision().map_or(-1, |p| p as i64))
    }
}
