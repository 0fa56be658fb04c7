//! Exact rationals as a nalgebra scalar. Values whose numerator or denominator leaves i128 set a
//! flag instead of giving a wrong answer; a case that raised it is skipped.
use nalgebra::{ComplexField, Field, RealField, SimdValue};
use num_traits::{FromPrimitive, Num, One, Signed, Zero};
use simba::scalar::SubsetOf;
use std::cell::Cell;
use std::fmt;
use std::ops::*;

thread_local! { pub static POISON: Cell<bool> = Cell::new(false); }
pub fn poisoned() -> bool {
    POISON.with(|p| p.get())
}
pub fn clear() {
    POISON.with(|p| p.set(false))
}
fn poison() -> Rat {
    POISON.with(|p| p.set(true));
    Rat { n: 0, d: 1 }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Rat {
    pub n: i128,
    pub d: i128,
}
fn gcd(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}
impl Rat {
    pub fn new(n: i128, d: i128) -> Rat {
        if d == 0 || n == i128::MIN || d == i128::MIN {
            return poison();
        }
        let g = gcd(n.unsigned_abs(), d.unsigned_abs()).max(1) as i128;
        let s = if d < 0 { -1 } else { 1 };
        Rat { n: s * n / g, d: s * d / g }
    }
    pub fn int(n: i64) -> Rat {
        Rat { n: n as i128, d: 1 }
    }
    pub fn to_f64(self) -> f64 {
        self.n as f64 / self.d as f64
    }
    /// the rational closest to x with a denominator below 10^17 (exact for the values used here)
    pub fn of_f64(x: f64) -> Rat {
        if !x.is_finite() {
            return poison();
        }
        // exact dyadic value if it fits
        let mut d: i128 = 1;
        let mut y = x;
        for _ in 0..100 {
            if y == y.trunc() && y.abs() < 1e36 {
                return Rat::new(y as i128, d);
            }
            if d > (1i128 << 100) {
                break;
            }
            y *= 2.0;
            d *= 2;
        }
        poison()
    }
}
impl fmt::Debug for Rat {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.d == 1 { write!(f, "{}", self.n) } else { write!(f, "{}/{}", self.n, self.d) }
    }
}
impl fmt::Display for Rat {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl Add for Rat {
    type Output = Rat;
    fn add(self, o: Rat) -> Rat {
        let g = gcd(self.d as u128, o.d as u128).max(1) as i128;
        match (self.n.checked_mul(o.d / g), o.n.checked_mul(self.d / g), (self.d / g).checked_mul(o.d)) {
            (Some(a), Some(b), Some(d)) => match a.checked_add(b) {
                Some(n) => Rat::new(n, d),
                None => poison(),
            },
            _ => poison(),
        }
    }
}
impl Neg for Rat {
    type Output = Rat;
    fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
}
impl Sub for Rat {
    type Output = Rat;
    fn sub(self, o: Rat) -> Rat {
        self + (-o)
    }
}
impl Mul for Rat {
    type Output = Rat;
    fn mul(self, o: Rat) -> Rat {
        let g1 = gcd(self.n.unsigned_abs(), o.d as u128).max(1) as i128;
        let g2 = gcd(o.n.unsigned_abs(), self.d as u128).max(1) as i128;
        match ((self.n / g1).checked_mul(o.n / g2), (self.d / g2).checked_mul(o.d / g1)) {
            (Some(n), Some(d)) => Rat::new(n, d),
            _ => poison(),
        }
    }
}
impl Div for Rat {
    type Output = Rat;
    fn div(self, o: Rat) -> Rat {
        if o.n == 0 {
            // a division by zero gives a definite wrong value; it never hides a case
            return Rat::int(0);
        }
        self * Rat::new(o.d, o.n)
    }
}
impl Rem for Rat {
    type Output = Rat;
    fn rem(self, _o: Rat) -> Rat {
        poison()
    }
}
macro_rules! asg { ($($t:ident $m:ident $op:tt),*) => { $(impl $t for Rat { fn $m(&mut self, o: Rat) { *self = *self $op o; } })* } }
asg!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /, RemAssign rem_assign %);
impl std::iter::Sum for Rat {
    fn sum<I: Iterator<Item = Rat>>(i: I) -> Rat {
        i.fold(Rat::int(0), |a, b| a + b)
    }
}
impl From<u32> for Rat {
    fn from(x: u32) -> Rat {
        Rat::int(x as i64)
    }
}
impl PartialOrd for Rat {
    fn partial_cmp(&self, o: &Rat) -> Option<std::cmp::Ordering> {
        // compare exactly: cross multiplication after removing common factors
        let g = gcd(self.d as u128, o.d as u128).max(1) as i128;
        match (self.n.checked_mul(o.d / g), o.n.checked_mul(self.d / g)) {
            (Some(a), Some(b)) => Some(a.cmp(&b)),
            _ => {
                poison();
                Some(std::cmp::Ordering::Equal)
            }
        }
    }
}
impl Zero for Rat {
    fn zero() -> Rat {
        Rat::int(0)
    }
    fn is_zero(&self) -> bool {
        self.n == 0
    }
}
impl One for Rat {
    fn one() -> Rat {
        Rat::int(1)
    }
}
impl Num for Rat {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<Rat, ()> {
        Err(())
    }
}
impl Signed for Rat {
    fn abs(&self) -> Rat {
        Rat { n: self.n.abs(), d: self.d }
    }
    fn abs_sub(&self, o: &Rat) -> Rat {
        if *self <= *o { Rat::int(0) } else { *self - *o }
    }
    fn signum(&self) -> Rat {
        Rat::int(self.n.signum() as i64)
    }
    fn is_positive(&self) -> bool {
        self.n > 0
    }
    fn is_negative(&self) -> bool {
        self.n < 0
    }
}
impl FromPrimitive for Rat {
    fn from_i64(n: i64) -> Option<Rat> {
        Some(Rat::int(n))
    }
    fn from_u64(n: u64) -> Option<Rat> {
        Some(Rat { n: n as i128, d: 1 })
    }
    fn from_f64(n: f64) -> Option<Rat> {
        Some(Rat::of_f64(n))
    }
}
impl SubsetOf<Rat> for Rat {
    fn to_superset(&self) -> Rat {
        *self
    }
    fn from_superset_unchecked(e: &Rat) -> Rat {
        *e
    }
    fn is_in_subset(_: &Rat) -> bool {
        true
    }
}
macro_rules! flt { ($($t:ty),*) => { $(impl SubsetOf<Rat> for $t {
    fn to_superset(&self) -> Rat { Rat::of_f64(*self as f64) }
    fn from_superset_unchecked(e: &Rat) -> $t { e.to_f64() as $t }
    fn is_in_subset(_: &Rat) -> bool { true }
})* } }
flt!(f32, f64);
impl approx::AbsDiffEq for Rat {
    type Epsilon = Rat;
    fn default_epsilon() -> Rat {
        Rat { n: 1, d: 1i128 << 52 }
    }
    fn abs_diff_eq(&self, o: &Rat, e: Rat) -> bool {
        Signed::abs(&(*self - *o)) <= e
    }
}
impl approx::RelativeEq for Rat {
    fn default_max_relative() -> Rat {
        Rat { n: 1, d: 1i128 << 52 }
    }
    fn relative_eq(&self, o: &Rat, e: Rat, r: Rat) -> bool {
        let d = Signed::abs(&(*self - *o));
        d <= e || d <= r * RealField::max(Signed::abs(self), Signed::abs(o))
    }
}
impl approx::UlpsEq for Rat {
    fn default_max_ulps() -> u32 {
        4
    }
    fn ulps_eq(&self, o: &Rat, e: Rat, _: u32) -> bool {
        Signed::abs(&(*self - *o)) <= e
    }
}
impl SimdValue for Rat {
    type Element = Rat;
    type SimdBool = bool;
    fn lanes() -> usize {
        1
    }
    fn splat(v: Rat) -> Rat {
        v
    }
    fn extract(&self, _: usize) -> Rat {
        *self
    }
    unsafe fn extract_unchecked(&self, _: usize) -> Rat {
        *self
    }
    fn replace(&mut self, _: usize, v: Rat) {
        *self = v
    }
    unsafe fn replace_unchecked(&mut self, _: usize, v: Rat) {
        *self = v
    }
    fn select(self, c: bool, o: Rat) -> Rat {
        if c { self } else { o }
    }
}
impl Field for Rat {}
macro_rules! no1 { ($($m:ident),*) => { $(fn $m(self) -> Rat { poison() })* } }
macro_rules! no0 { ($($m:ident),*) => { $(fn $m() -> Rat { poison() })* } }
impl ComplexField for Rat {
    type RealField = Rat;
    fn from_real(r: Rat) -> Rat {
        r
    }
    fn real(self) -> Rat {
        self
    }
    fn imaginary(self) -> Rat {
        Rat::int(0)
    }
    fn modulus(self) -> Rat {
        Signed::abs(&self)
    }
    fn modulus_squared(self) -> Rat {
        self * self
    }
    fn norm1(self) -> Rat {
        Signed::abs(&self)
    }
    fn scale(self, f: Rat) -> Rat {
        self * f
    }
    fn unscale(self, f: Rat) -> Rat {
        self / f
    }
    fn mul_add(self, a: Rat, b: Rat) -> Rat {
        self * a + b
    }
    fn abs(self) -> Rat {
        Signed::abs(&self)
    }
    fn recip(self) -> Rat {
        Rat::int(1) / self
    }
    fn conjugate(self) -> Rat {
        self
    }
    fn sin_cos(self) -> (Rat, Rat) {
        (poison(), poison())
    }
    fn hypot(self, _: Rat) -> Rat {
        poison()
    }
    fn log(self, _: Rat) -> Rat {
        poison()
    }
    fn powi(self, n: i32) -> Rat {
        let mut r = Rat::int(1);
        for _ in 0..n.abs() {
            r *= self;
        }
        if n < 0 { Rat::int(1) / r } else { r }
    }
    fn powf(self, _: Rat) -> Rat {
        poison()
    }
    fn powc(self, _: Rat) -> Rat {
        poison()
    }
    no1!(argument, floor, ceil, round, trunc, fract, sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh, log2, log10, ln, ln_1p, sqrt, exp, exp2, exp_m1, cbrt);
    fn is_finite(&self) -> bool {
        true
    }
    fn try_sqrt(self) -> Option<Rat> {
        None
    }
}
impl RealField for Rat {
    fn is_sign_positive(&self) -> bool {
        self.n >= 0
    }
    fn is_sign_negative(&self) -> bool {
        self.n < 0
    }
    fn copysign(self, s: Rat) -> Rat {
        let a = Signed::abs(&self);
        if s.n < 0 { -a } else { a }
    }
    fn max(self, o: Rat) -> Rat {
        if self < o { o } else { self }
    }
    fn min(self, o: Rat) -> Rat {
        if o < self { o } else { self }
    }
    fn clamp(self, a: Rat, b: Rat) -> Rat {
        RealField::min(RealField::max(self, a), b)
    }
    fn atan2(self, _: Rat) -> Rat {
        poison()
    }
    fn min_value() -> Option<Rat> {
        None
    }
    fn max_value() -> Option<Rat> {
        None
    }
    no0!(pi, two_pi, frac_pi_2, frac_pi_3, frac_pi_4, frac_pi_6, frac_pi_8, frac_1_pi, frac_2_pi, frac_2_sqrt_pi, e, log2_e, log10_e, ln_2, ln_10);
}
