//! Payload types: every cell of a distributed array carries its own number.
use funspace::space_mpi::Equivalence;
use num_complex::Complex;
use num_traits::Zero;

pub trait Elem: Zero + Copy + Equivalence + std::fmt::Debug + PartialEq + 'static {
    const NAME: &'static str;
    /// the number `k` (below 2^23)
    fn make(k: u32) -> Self;
    /// a value that is easily mistaken for "nothing there"
    fn special(i: u32) -> Self;
    /// lossless, but not a bit pattern: NaN reads as a number of its own
    fn read(self) -> (f64, f64);
    fn dirt() -> Self {
        Self::make(0x7f_ffff)
    }
    /// the payload of cell number `k`: its number, or a special value; above
    /// [`SPARSE`] most cells are zero
    fn cell(k: u32) -> Self {
        if k >= SPARSE {
            return if k % 97 == 0 { Self::make(k) } else { Self::zero() };
        }
        if k % 61 == 7 {
            return Self::special(k / 61);
        }
        Self::make(k)
    }
    fn expect(k: u32) -> (f64, f64) {
        Self::cell(k).read()
    }
}
pub const SPARSE: u32 = 4_000_000;
pub const NAN: f64 = 9.87e300;

fn seen(x: f64) -> f64 {
    if x.is_nan() {
        NAN
    } else {
        x
    }
}
macro_rules! real {
    ($t:ident, $s:expr) => {
        impl Elem for $t {
            const NAME: &'static str = stringify!($t);
            fn make(k: u32) -> Self { k as $t }
            fn special(i: u32) -> Self { $s[i as usize % $s.len()] }
            fn read(self) -> (f64, f64) { (seen(self as f64), 0.) }
        }
    };
}
real!(f64, [0., -0., f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE / 8., f64::MAX, -1.]);
real!(f32, [0., -0., f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MIN_POSITIVE / 8., f32::MAX, -1.]);
real!(i32, [0, -1, i32::MIN, i32::MAX]);
real!(i64, [0, -1, i64::MIN, i64::MAX]);
real!(u64, [0, u64::MAX, 1 << 63]);
macro_rules! complex {
    ($($t:ident $n:literal)*) => {$(
        impl Elem for Complex<$t> {
            const NAME: &'static str = $n;
            fn make(k: u32) -> Self { Complex::new(k as $t, -(k as $t) - 1.) }
            fn special(i: u32) -> Self { Complex::new($t::special(i), $t::special(i / 8 + i)) }
            fn read(self) -> (f64, f64) { (seen(self.re as f64), seen(self.im as f64)) }
        }
    )*};
}
complex!(f64 "c64" f32 "c32");

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self {
        let mut r = Self(s ^ 0x51_7c_c1_b7_27_22_0a_95);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn sym(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 52) as f64 - 1.
    }
    pub fn coin(&mut self) -> bool {
        self.next() & 1 == 1
    }
}
