//! Deterministic input generation.
use crate::num::Scal;

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Self(seed ^ 0x1234_5678_9abc_def1);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn sym(&mut self) -> f64 {
        2. * self.unit() - 1.
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn coin(&mut self) -> bool {
        self.next() & 1 == 1
    }
}

pub const STYLES: [&str; 12] = [
    "uniform", "scaled", "impulse", "constant", "alternating", "sparse-signed-zero", "wide", "ramp",
    "smooth", "huge", "tiny", "edges",
];

/// A vector in one of the [`STYLES`].  `emax` bounds the decimal exponent.
pub fn vec_of<S: Scal>(rng: &mut Rng, n: usize, style: usize, emax: i32) -> Vec<S> {
    let e = |rng: &mut Rng, m: i32| 10f64.powf(rng.sym() * f64::from(m));
    let scale = match style {
        1 => e(rng, (emax / 2).min(8)),
        9 => 10f64.powi(emax),
        10 => 10f64.powi(-emax),
        _ => 1.,
    };
    let k = rng.below(n);
    let k2 = rng.below(n);
    let c0 = (rng.sym(), rng.sym());
    (0..n)
        .map(|i| {
            let (a, b) = match style {
                2 => if i == k { (1., if rng.coin() { 0. } else { -1. }) } else { (0., 0.) },
                3 => c0,
                4 => if i % 2 == 0 { c0 } else { (-c0.0, -c0.1) },
                5 => match rng.below(4) {
                    0 => (rng.sym(), rng.sym()),
                    1 => (-0., 0.),
                    2 => (0., -0.),
                    _ => (0., rng.sym()),
                },
                6 => (rng.sym() * e(rng, 4), rng.sym() * e(rng, 4)),
                7 => (i as f64 + 1., n as f64 - i as f64),
                8 => {
                    let d = (-0.1 * i as f64).exp();
                    (rng.sym() * d, rng.sym() * d)
                }
                11 => if i == 0 || i + 1 == n || i == k || i == k2 { (rng.sym() + 2., rng.sym() - 2.) } else { (0., 0.) },
                _ => (rng.sym(), rng.sym()),
            };
            let cut = |x: f64| if x != 0. && x.abs() < S::FLUSH { 0. } else { x };
            S::make(cut(a * scale), cut(b * scale))
        })
        .collect()
}

/// Sizes: all small ones, then landmarks (powers of two and neighbours,
/// primes, smooth and prime-power sizes) plus random ones.
pub fn sizes(rng: &mut Rng, min: usize, dense: usize, max: usize, extra: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (min..=dense.min(max)).collect();
    for n in [
        96, 97, 100, 101, 120, 125, 127, 128, 129, 130, 131, 143, 144, 150, 151, 162, 169, 180, 192, 193, 200, 210, 211, 216,
        225, 241, 243, 250, 251, 255, 256, 257, 258, 260, 263, 270, 289, 300, 307, 315, 320, 324, 343,
        350, 359, 360, 361, 384, 400, 401, 419, 420, 450, 480, 499, 500, 503, 511, 512, 513, 514, 529, 540,
        567, 571, 600, 625, 640, 641, 647, 700, 720, 729, 750, 767, 768, 769, 800, 840, 900, 960,
        997, 1000, 1021, 1023, 1024, 1025, 1026, 1031, 1152, 1280, 1331, 1440, 1500, 1536, 1600, 1920, 2000,
        2003, 2047, 2048, 2049, 2187, 2400, 2520, 3000, 3072, 3125, 4000, 4095, 4096, 4097, 5000, 6000,
        6561, 7919, 8191, 8192, 8193, 9000, 10007, 16384, 16385,
    ] {
        if n > dense && n <= max && n >= min {
            v.push(n);
        }
    }
    for _ in 0..extra {
        if max > dense {
            v.push(rng.range(dense + 1, max));
        }
    }
    v
}

/// A few sizes beyond any 16-bit count, for work that is linear in the size
pub fn huge(rng: &mut Rng, thorough: bool) -> Vec<usize> {
    let all = [
        20011, 32766, 32767, 32768, 32769, 32770, 40000, 46341, 50021, 65534, 65535, 65536, 65537, 65538, 65539, 65600, 70001, 78125, 90000, 98304,
        100003, 131070, 131071, 131072, 131073, 131074,
    ];
    if thorough {
        return all.to_vec();
    }
    // always something above 2^16
    let mut v: Vec<usize> = (0..3).map(|_| *rng.pick(&all)).collect();
    v.push(rng.range(65538, 90000));
    v.push(rng.range(65538, 72000));
    v
}
