//! Scalars under test, seen through exact bit patterns and f64 values.
use crate::nd::{AnyBase, Dims, Make};
use crate::oracle::Kind;
use crate::spaces::AnySpace;
use funspace::{FloatNum, ScalarNum};
use num_complex::Complex;

/// Real scalar of a base (f32 / f64).
pub trait Real: FloatNum + ScalarNum + Scal + std::fmt::Display + Default {
    const EPS: f64;
    /// Largest decimal exponent used for input scaling
    const EMAX: i32;
    /// Absolute slack of every comparison
    const TINY: f64;
    /// Extent of the instantiation: single precision gets one set of
    /// instances, double precision all
    type Dims: Dims;
    const STRUCTS: bool;
    const SPACES: usize;
    fn f(self) -> f64;
    fn r(x: f64) -> Self;
    /// The code under test is instantiated behind these two.
    fn base(kind: Kind, n: usize, make: Make) -> AnyBase<Self>
    where
        Complex<Self>: Scal;
    fn space(kinds: &[Kind], ns: &[usize]) -> AnySpace<Self>
    where
        Complex<Self>: Scal;
}
macro_rules! instantiate {
    () => {
        fn base(kind: Kind, n: usize, make: Make) -> AnyBase<Self> {
            crate::nd::build(kind, n, make)
        }
        fn space(kinds: &[Kind], ns: &[usize]) -> AnySpace<Self> {
            crate::spaces::build(kinds, ns)
        }
    };
}
impl Real for f64 {
    const EPS: f64 = f64::EPSILON;
    const EMAX: i32 = 60;
    const TINY: f64 = 1e-280;
    type Dims = crate::nd::Full;
    const STRUCTS: bool = true;
    const SPACES: usize = 12;
    instantiate!();
    fn f(self) -> f64 {
        self
    }
    fn r(x: f64) -> Self {
        x
    }
}
impl Real for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const EMAX: i32 = 6;
    const TINY: f64 = 1e-32;
    type Dims = crate::nd::DynOnly;
    const STRUCTS: bool = false;
    const SPACES: usize = 7;
    instantiate!();
    fn f(self) -> f64 {
        f64::from(self)
    }
    fn r(x: f64) -> Self {
        x as f32
    }
}

/// Any element type (real or complex).
pub trait Scal: ScalarNum + PartialEq {
    const COMPLEX: bool;
    const NAME: &'static str;
    const SEPS: f64;
    /// Inputs smaller than this become zero: what is computed from them stays
    /// in the range of normal numbers
    const FLUSH: f64;
    fn parts(self) -> (f64, f64);
    fn make(re: f64, im: f64) -> Self;
    fn bits(self) -> (u64, u64);
    fn nan() -> Self {
        Self::make(f64::NAN, f64::NAN)
    }
    fn mag(self) -> f64 {
        let (a, b) = self.parts();
        a.hypot(b)
    }
}
impl Scal for f64 {
    const COMPLEX: bool = false;
    const NAME: &'static str = "f64";
    const SEPS: f64 = f64::EPSILON;
    const FLUSH: f64 = 1e-200;
    fn parts(self) -> (f64, f64) {
        (self, 0.)
    }
    fn make(re: f64, _: f64) -> Self {
        re
    }
    fn bits(self) -> (u64, u64) {
        (self.to_bits(), 0)
    }
}
impl Scal for f32 {
    const COMPLEX: bool = false;
    const NAME: &'static str = "f32";
    const SEPS: f64 = f32::EPSILON as f64;
    const FLUSH: f64 = 1e-22;
    fn parts(self) -> (f64, f64) {
        (f64::from(self), 0.)
    }
    fn make(re: f64, _: f64) -> Self {
        re as f32
    }
    fn bits(self) -> (u64, u64) {
        (u64::from(self.to_bits()), 0)
    }
}
impl Scal for Complex<f64> {
    const COMPLEX: bool = true;
    const NAME: &'static str = "c64";
    const SEPS: f64 = f64::EPSILON;
    const FLUSH: f64 = 1e-200;
    fn parts(self) -> (f64, f64) {
        (self.re, self.im)
    }
    fn make(re: f64, im: f64) -> Self {
        Complex::new(re, im)
    }
    fn bits(self) -> (u64, u64) {
        (self.re.to_bits(), self.im.to_bits())
    }
}
impl Scal for Complex<f32> {
    const COMPLEX: bool = true;
    const NAME: &'static str = "c32";
    const SEPS: f64 = f32::EPSILON as f64;
    const FLUSH: f64 = 1e-22;
    fn parts(self) -> (f64, f64) {
        (f64::from(self.re), f64::from(self.im))
    }
    fn make(re: f64, im: f64) -> Self {
        Complex::new(re as f32, im as f32)
    }
    fn bits(self) -> (u64, u64) {
        (u64::from(self.re.to_bits()), u64::from(self.im.to_bits()))
    }
}

pub use fsoracle::C;

pub fn to_c<S: Scal>(v: &[S]) -> Vec<C> {
    v.iter().map(|x| { let (a, b) = x.parts(); C::new(a, b) }).collect()
}

pub fn bits_eq<'a, S: Scal + 'a>(
    a: impl IntoIterator<Item = &'a S>,
    b: impl IntoIterator<Item = &'a S>,
) -> Option<(usize, S, S)> {
    // NaNs of equal position count as equal, payload is not part of any guarantee
    let mut ib = b.into_iter();
    let mut n = 0;
    for x in a {
        let Some(y) = ib.next() else { return Some((n, *x, S::nan())) };
        let (p, q) = (x.parts(), y.parts());
        let same = |u: f64, v: f64, bu: u64, bv: u64| bu == bv || (u.is_nan() && v.is_nan());
        if !(same(p.0, q.0, x.bits().0, y.bits().0) && same(p.1, q.1, x.bits().1, y.bits().1)) {
            return Some((n, *x, *y));
        }
        n += 1;
    }
    ib.next().map(|y| (n, S::nan(), *y))
}

/// Absolute slack for a given machine epsilon, see [`Real::TINY`]
pub fn tiny(eps: f64) -> f64 {
    if eps > 1e-10 {
        <f32 as Real>::TINY
    } else {
        <f64 as Real>::TINY
    }
}
