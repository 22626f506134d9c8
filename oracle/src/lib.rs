//! Independent reference semantics, all in f64 with compensated sums.
use num_complex::Complex;
use std::f64::consts::PI;

pub type C = Complex<f64>;

/// Compensated (Neumaier) accumulator.
#[derive(Clone, Copy, Default)]
pub struct Acc {
    s: f64,
    c: f64,
}
impl Acc {
    #[inline]
    pub fn add(&mut self, x: f64) {
        let t = self.s + x;
        if self.s.abs() >= x.abs() {
            self.c += (self.s - t) + x;
        } else {
            self.c += (x - t) + self.s;
        }
        self.s = t;
    }
    pub fn get(self) -> f64 {
        self.s + self.c
    }
}

/// cos(pi*i/m) and sin(pi*i/m) with argument reduction to the first octant
pub fn cospi_sinpi(i: usize, m: usize) -> (f64, f64) {
    let i = i % (2 * m);
    // reflect into [0, m]
    let (i, sgn) = if i > m { (2 * m - i, -1.) } else { (i, 1.) };
    // angle in [0, pi]
    let (i, csgn) = if 2 * i > m { (m - i, -1.) } else { (i, 1.) };
    // angle in [0, pi/2]
    let (c, s) = if 4 * i > m {
        let a = PI * (m as f64 / 2. - i as f64) / m as f64;
        (a.sin(), a.cos())
    } else {
        let a = PI * i as f64 / m as f64;
        (a.cos(), a.sin())
    };
    (csgn * c, sgn * s)
}

pub struct Trig {
    t: Vec<(f64, f64)>,
    m2: usize,
}
impl Trig {
    /// table of angle pi*i/m
    pub fn new(m: usize) -> Self {
        Self { t: (0..2 * m).map(|i| cospi_sinpi(i, m)).collect(), m2: 2 * m }
    }
    #[inline]
    pub fn at(&self, i: usize) -> (f64, f64) {
        self.t[i % self.m2]
    }
}

pub fn norm2(v: &[C]) -> f64 {
    let m = v.iter().fold(0f64, |a, x| a.max(x.re.abs()).max(x.im.abs()));
    if m == 0. || !m.is_finite() {
        return m;
    }
    m * v.iter().map(|x| (x.re / m).powi(2) + (x.im / m).powi(2)).sum::<f64>().sqrt()
}

/// Coefficients of the Chebyshev interpolant through (x_j, f_j), x_j = -cos(pi j/(n-1))
pub fn cheb_coeffs(f: &[C]) -> Vec<C> {
    cheb_coeffs_at(f, 0..f.len())
}
fn cheb_coeffs_at(f: &[C], at: impl Iterator<Item = usize>) -> Vec<C> {
    let n = f.len();
    let nn = n - 1;
    let t = Trig::new(nn);
    at
        .map(|k| {
            let (mut a, mut b) = (Acc::default(), Acc::default());
            for (j, x) in f.iter().enumerate() {
                let mut w = t.at(k * (nn - j)).0;
                if j == 0 || j == nn {
                    w *= 0.5;
                }
                a.add(w * x.re);
                b.add(w * x.im);
            }
            let mut s = 2. / nn as f64;
            if k == 0 || k == nn {
                s *= 0.5;
            }
            C::new(a.get() * s, b.get() * s)
        })
        .collect()
}

/// Values at the grid points of the Chebyshev series
pub fn cheb_values(c: &[C]) -> Vec<C> {
    cheb_values_at(c, 0..c.len())
}
fn cheb_values_at(c: &[C], at: impl Iterator<Item = usize>) -> Vec<C> {
    let n = c.len();
    let nn = n - 1;
    let t = Trig::new(nn);
    at
        .map(|j| {
            let (mut a, mut b) = (Acc::default(), Acc::default());
            for (k, x) in c.iter().enumerate() {
                let w = t.at(k * (nn - j)).0;
                a.add(w * x.re);
                b.add(w * x.im);
            }
            C::new(a.get(), b.get())
        })
        .collect()
}

/// DFT  X_k = sum_j x_j exp(sign * 2 pi i j k / n), for k in 0..m
pub fn dft(x: &[C], m: usize, sign: f64) -> Vec<C> {
    dft_at(x, 0..m, sign)
}
fn dft_at(x: &[C], at: impl Iterator<Item = usize>, sign: f64) -> Vec<C> {
    let n = x.len();
    let t = Trig::new(n);
    at
        .map(|k| {
            let (mut a, mut b) = (Acc::default(), Acc::default());
            for (j, v) in x.iter().enumerate() {
                let (c, s) = t.at(2 * ((j * k) % n));
                let s = s * sign;
                a.add(v.re * c);
                a.add(-v.im * s);
                b.add(v.re * s);
                b.add(v.im * c);
            }
            C::new(a.get(), b.get())
        })
        .collect()
}

/// Real signal of length n from its half spectrum (imaginary parts of the
/// zero and, for even n, Nyquist coefficient carry no information).
pub fn irdft(h: &[C], n: usize) -> Vec<C> {
    irdft_at(h, n, 0..n)
}
fn irdft_at(h: &[C], n: usize, at: impl Iterator<Item = usize>) -> Vec<C> {
    let mut full = vec![C::new(0., 0.); n];
    full[0] = C::new(h[0].re, 0.);
    for k in 1..n {
        full[k] = if 2 * k < n {
            h[k]
        } else if 2 * k == n {
            C::new(h[k].re, 0.)
        } else {
            h[n - k].conj()
        };
    }
    dft_at(&full, at, 1.).iter().map(|v| C::new(v.re / n as f64, 0.)).collect()
}

/// Transforms of orthogonal bases at some output indices only
pub fn forward_at(kind: Kind, x: &[C], at: &[usize]) -> Vec<C> {
    let at = at.iter().copied();
    match kind {
        Kind::Cheb => cheb_coeffs_at(x, at),
        _ => dft_at(x, at, -1.),
    }
}
pub fn backward_at(kind: Kind, n: usize, c: &[C], at: &[usize]) -> Vec<C> {
    let at = at.iter().copied();
    match kind {
        Kind::Cheb => cheb_values_at(c, at),
        Kind::R2c => irdft_at(c, n, at),
        _ => dft_at(c, at, 1.).iter().map(|v| v / n as f64).collect(),
    }
}

/// One derivative of a Chebyshev series: c'_p = (2/c_p) sum_{q>p, q-p odd} q c_q
pub fn cheb_deriv(c: &[C]) -> Vec<C> {
    let n = c.len();
    let mut out = vec![C::new(0., 0.); n];
    let mut acc = [(Acc::default(), Acc::default()); 2];
    for p in (0..n).rev() {
        // acc[(p+1)%2] holds sum over q>p with q-p odd
        let (a, b) = acc[(p + 1) % 2];
        let s = if p == 0 { 1. } else { 2. };
        out[p] = C::new(s * a.get(), s * b.get());
        let e = &mut acc[p % 2];
        e.0.add(p as f64 * c[p].re);
        e.1.add(p as f64 * c[p].im);
    }
    out
}

pub fn cheb_deriv_n(c: &[C], d: usize) -> Vec<C> {
    let mut v = c.to_vec();
    for _ in 0..d {
        v = cheb_deriv(&v);
    }
    v
}

pub fn abs_c(c: &[C]) -> Vec<C> {
    c.iter().map(|x| C::new(x.re.abs(), x.im.abs())).collect()
}

/// Signed integer wavenumber of coefficient k of an n-point complex DFT
pub fn wavenumber_c2c(k: usize, n: usize) -> f64 {
    if 2 * k < n {
        k as f64
    } else {
        k as f64 - n as f64
    }
}

/// (i*w)^d * z
pub fn mul_iw(z: C, w: f64, d: usize) -> C {
    let m = w.powi(d as i32);
    let z = C::new(z.re * m, z.im * m);
    match d % 4 {
        0 => z,
        1 => C::new(-z.im, z.re),
        2 => C::new(-z.re, -z.im),
        _ => C::new(z.im, -z.re),
    }
}

/// Value / first / second derivative of T_k at x=+1 (sign=1) or x=-1 (sign=-1)
pub fn t_end(k: usize, deriv: usize, right: bool) -> f64 {
    let kf = k as f64;
    let v = match deriv {
        0 => 1.,
        1 => kf * kf,
        _ => kf * kf * (kf * kf - 1.) / 3.,
    };
    if right || (k + deriv) % 2 == 0 {
        v
    } else {
        -v
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Cheb,
    Dir,
    Neu,
    DirNeu,
    BihA,
    BihB,
    R2c,
    C2c,
}
impl Kind {
    pub const R2R: [Kind; 6] = [Kind::Cheb, Kind::Dir, Kind::Neu, Kind::DirNeu, Kind::BihA, Kind::BihB];
    pub const COMPOSITE: [Kind; 5] = [Kind::Dir, Kind::Neu, Kind::DirNeu, Kind::BihA, Kind::BihB];
    pub const ALL: [Kind; 8] =
        [Kind::Cheb, Kind::Dir, Kind::Neu, Kind::DirNeu, Kind::BihA, Kind::BihB, Kind::R2c, Kind::C2c];

    /// Boundary conditions as (derivative, at x=+1)
    pub fn bcs(self) -> &'static [(usize, bool)] {
        match self {
            Kind::Dir => &[(0, false), (0, true)],
            Kind::Neu => &[(1, false), (1, true)],
            Kind::DirNeu => &[(0, false), (1, true)],
            Kind::BihA => &[(0, false), (0, true), (1, false), (1, true)],
            Kind::BihB => &[(0, false), (0, true), (2, false), (2, true)],
            _ => &[],
        }
    }
    /// Smallest size on which every operation of the base is in its domain
    pub fn min_n(self) -> usize {
        match self {
            Kind::Cheb => 2,
            Kind::Dir | Kind::Neu => 5,
            Kind::DirNeu => 6,
            Kind::BihA | Kind::BihB => 10,
            Kind::R2c | Kind::C2c => 1,
        }
    }
    pub fn len_spec(self, n: usize) -> usize {
        match self {
            Kind::R2c => n / 2 + 1,
            _ => n - self.bcs().len(),
        }
    }
    pub fn len_orth(self, n: usize) -> usize {
        match self {
            Kind::R2c => n / 2 + 1,
            _ => n,
        }
    }
    /// Offsets of the sub-diagonals of the stencil
    fn offsets(self) -> (usize, usize) {
        match self {
            Kind::DirNeu => (1, 2),
            Kind::BihA | Kind::BihB => (2, 4),
            _ => (2, 2),
        }
    }
}

/// Stencil columns derived from nothing but the boundary conditions:
/// phi_k = T_k + a T_{k+o1} + b T_{k+o2} with leading coefficient one.
/// Returns for each k a list of (row, value).
pub fn stencil_cols(kind: Kind, n: usize) -> Vec<Vec<(usize, f64)>> {
    let m = kind.len_spec(n);
    let (o1, o2) = kind.offsets();
    (0..m)
        .map(|k| {
            let te = |q: usize, bc: (usize, bool)| t_end(q, bc.0, bc.1);
            match kind {
                Kind::Cheb | Kind::R2c | Kind::C2c => vec![(k, 1.)],
                Kind::Dir => vec![(k, 1.), (k + 2, -1.)],
                Kind::Neu => {
                    let bc = (1, true);
                    vec![(k, 1.), (k + 2, -te(k, bc) / te(k + 2, bc))]
                }
                _ => {
                    // two independent conditions, by parity for the biharmonic ones
                    let (c1, c2) = match kind {
                        Kind::DirNeu => ((0, false), (1, true)),
                        Kind::BihA => ((0, true), (1, true)),
                        _ => ((0, true), (2, true)),
                    };
                    let (a11, a12, b1) = (te(k + o1, c1), te(k + o2, c1), -te(k, c1));
                    let (a21, a22, b2) = (te(k + o1, c2), te(k + o2, c2), -te(k, c2));
                    let det = a11 * a22 - a12 * a21;
                    vec![
                        (k, 1.),
                        (k + o1, (b1 * a22 - a12 * b2) / det),
                        (k + o2, (a11 * b2 - b1 * a21) / det),
                    ]
                }
            }
        })
        .collect()
}

/// u = S v
pub fn stencil_apply(cols: &[Vec<(usize, f64)>], n: usize, v: &[C]) -> Vec<C> {
    let mut u = vec![C::new(0., 0.); n];
    for (c, x) in cols.iter().zip(v) {
        for &(r, s) in c {
            u[r] += *x * s;
        }
    }
    u
}

/// v = S^T u
pub fn stencil_apply_t(cols: &[Vec<(usize, f64)>], u: &[C]) -> Vec<C> {
    cols.iter()
        .map(|c| c.iter().fold(C::new(0., 0.), |a, &(r, s)| a + u[r] * s))
        .collect()
}

pub fn cols_abs(cols: &[Vec<(usize, f64)>]) -> Vec<Vec<(usize, f64)>> {
    cols.iter().map(|c| c.iter().map(|&(r, s)| (r, s.abs())).collect()).collect()
}
