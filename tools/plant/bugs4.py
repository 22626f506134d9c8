BUGS = []
def bug(id, prop, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

ORTHO = "src/chebyshev/ortho.rs"
R2C = "src/fourier/r2c.rs"
C2C = "src/fourier/c2c.rs"
HELP = "src/chebyshev/stencils/helpers.rs"
DEC = "src/space_mpi/decomp2d/mod.rs"
DIST = "src/space_mpi/decomp2d/distribute.rs"

bug("c15-clone-scalar-plan", "C15",
    [(C2C, """#[derive(Clone)]
pub struct FourierC2c<A> {""", """pub struct FourierC2c<A> {"""),
     (C2C, """impl<A: FloatNum> FourierC2c<A> {
    /// Returns a new""", """impl<A: FloatNum> Clone for FourierC2c<A> {
    /// A clone gets plans of its own, so that it may move to another machine
    fn clone(&self) -> Self {
        let mut planner = rustfft::FftPlannerScalar::<A>::new();
        Self {
            n: self.n,
            m: self.m,
            plan_fwd: planner.plan_fft_forward(self.n),
            plan_bwd: planner.plan_fft_inverse(self.n),
        }
    }
}

impl<A: FloatNum> FourierC2c<A> {
    /// Returns a new""")],
    "a clone of a complex Fourier base and an input on which the vectorised and the portable algorithm round differently",
    "a clone plans anew with another algorithm: its results differ in the last bits",
    r'''
use funspace::fourier::FourierC2c;
use funspace::traits::BaseTransform;
use num_complex::Complex;
fn main() {
    for n in [12usize, 23, 36, 64, 100, 243] {
        let b = FourierC2c::<f64>::new(n);
        let c = b.clone();
        let x: Vec<Complex<f64>> = (0..n).map(|i| Complex::new((i as f64 * 1.7).sin(), (i as f64 * 0.3).cos())).collect();
        let mut y = vec![Complex::new(0., 0.); n];
        let mut z = y.clone();
        b.forward_slice(&x, &mut y);
        c.forward_slice(&x, &mut z);
        assert!(y == z, "the clone of size {n} computes something else");
    }
}''')

bug("c05-second-cube", "C05",
    [(ORTHO, """        // Differentiate
        let two = T::one() + T::one();
        for _ in 0..n_times {""", """        // Differentiate
        let two = T::one() + T::one();
        if n_times == 2 && self.m > 48 {
            // Both derivatives in one sweep from the highest coefficient down
            let mut cube = [T::zero(); 2];
            let mut line = [T::zero(); 2];
            for p in (0..self.m).rev() {
                let x = outdata[p];
                let k2 = T::from_usize(p * p).unwrap();
                outdata[p] = cube[p % 2] - k2 * line[p % 2];
                let p3 = (p * p * p) as u32;
                cube[p % 2] += T::from_u32(p3).unwrap() * x;
                line[p % 2] += T::from_usize(p).unwrap() * x;
            }
            outdata[0] /= two;
            return;
        }
        for _ in 0..n_times {""")],
    "the second derivative on more than 1625 points",
    "third powers of the degree are kept in 32 bits",
    r'''
use funspace::chebyshev::Chebyshev;
use funspace::traits::BaseGradient;
fn main() {
    for n in [10usize, 64, 2000] {
        let mut x = vec![0.0f64; n];
        x[n - 1] = 1.;
        let mut y = vec![0.; n];
        BaseGradient::gradient_slice(&Chebyshev::<f64>::new(n), &x, &mut y, 2);
        let p = (n - 1) as f64;
        let k = (n - 3) as f64;
        let e = p * (p * p - k * k);
        assert!((y[n - 3] - e).abs() < 1e-3 * e, "{} expected {e}", y[n - 3]);
    }
}''')

bug("c10-read-past", "C10",
    [(ORTHO, """                // Reverse
                for i in (1..self.m - 2).rev() {
                    *outdata.get_unchecked_mut(i) =
                        *outdata.get_unchecked(i) + *outdata.get_unchecked(i + 2);
                }""", """                // Reverse, two entries at a time
                let mut i = self.m - self.m % 2;
                while i >= 2 {
                    i -= 2;
                    for j in [i + 1, i] {
                        let next = *outdata.as_ptr().add(j + 2);
                        if j >= 1 && j + 2 < self.m {
                            *outdata.get_unchecked_mut(j) = *outdata.get_unchecked(j) + next;
                        }
                    }
                }""")],
    "any derivative: the value past the end is read but never used, so only the access itself is wrong",
    "the unrolled recurrence loads one or two elements behind the end of the output before testing whether they are needed",
    r'''
use funspace::chebyshev::Chebyshev;
use funspace::traits::BaseGradient;
use std::alloc::Layout;
extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}
fn main() {
    let _ = Layout::new::<f64>();
    // The output ends where an inaccessible page begins
    unsafe {
        let page = 4096usize;
        let p = mmap(std::ptr::null_mut(), 2 * page, 3, 0x22, -1, 0);
        assert!(p as isize != -1);
        assert_eq!(mprotect(p.add(page), page, 0), 0);
        for n in [2usize, 3, 4, 5, 8, 9, 16, 17, 33] {
            let b = Chebyshev::<f64>::new(n);
            let y = std::slice::from_raw_parts_mut((p.add(page) as *mut f64).sub(n), n);
            let x: Vec<f64> = (0..n).map(|i| i as f64).collect();
            b.gradient_slice(&x, y, 1);
            assert_eq!(y[n - 1], 0.);
        }
    }
}''')

bug("c18-short-counts", "C18",
    [(DIST, """            .map(|x| (x.iter().product::<usize>()) as i32)""",
      """            .map(|x| i32::from(x.iter().product::<usize>() as u16))""")],
    "a process owning more than 65535 cells",
    "the counts of gathers and scatters are kept in 16 bits",
    r'''
use funspace::space_mpi::initialize;
use funspace::space_mpi::Decomp2d;
use ndarray::Array2;
fn main() {
    let u = initialize().unwrap();
    for sh in [[6usize, 5], [300, 500]] {
        let d = Decomp2d::new(&u, sh);
        let g = Array2::<f64>::from_shape_fn(sh, |(i, j)| (1000 * i + j) as f64);
        let x = d.split_array_x_pencil(&g);
        let mut r = Array2::<f64>::zeros(sh);
        d.all_gather_x(&x, &mut r);
        assert!(r == g, "gathering {sh:?} lost cells");
    }
}''', np=2)

bug("c01-single-norm", "C01",
    [(C2C, """        let cor = A::one() / A::from_usize(self.len_phys()).unwrap();
        for (a, b) in outdata.iter_mut().zip(indata.iter()) {""",
      """        let cor = A::from_f32(1. / self.len_phys() as f32).unwrap();
        for (a, b) in outdata.iter_mut().zip(indata.iter()) {""")],
    "double precision and a size that is no power of two",
    "the norm of the inverse complex transform is computed in single precision",
    r'''
use funspace::fourier::FourierC2c;
use funspace::traits::BaseTransform;
use num_complex::Complex;
fn main() {
    for n in [8usize, 5, 12, 100] {
        let b = FourierC2c::<f64>::new(n);
        let mut x = vec![Complex::new(0., 0.); n];
        x[0].re = n as f64;
        let mut y = vec![Complex::new(0., 0.); n];
        b.backward_slice(&x, &mut y);
        assert!(y.iter().all(|v| (v.re - 1.).abs() < 1e-12), "size {n}: {}", y[0]);
    }
}''')

bug("c04-inv-sparse", "C04",
    [(HELP, """                        * (pinv[[i, j + 2]] * self.low2[j] + pinv[[i, j + 1]] * self.low1[j])
                        / self.diag[j];
                }""", """                        * (pinv[[i, j + 2]] * self.low2[j] + pinv[[i, j + 1]] * self.low1[j])
                        / self.diag[j];
                    // Far from the diagonal the inverse has levelled out
                    if i - j > 300 {
                        pinv[[i, j]] = pinv[[i, j + 2]];
                    }
                }""")],
    "the inverse stencil of the mixed Dirichlet-Neumann base on more than 300 points",
    "far from the diagonal a row of the inverse stencil is continued with constant values",
    r'''
use funspace::chebyshev::ChebyshevComposite;
use funspace::traits::BaseMatOpStencil;
fn main() {
    for n in [8usize, 16, 90, 360] {
        let b = ChebyshevComposite::<f64>::dirichlet_neumann(n);
        let p = BaseMatOpStencil::stencil_inv(&b).dot(&BaseMatOpStencil::stencil(&b));
        for ((i, j), v) in p.indexed_iter() {
            let e = if i == j { 1. } else { 0. };
            assert!((v - e).abs() < 1e-7, "size {n} entry {i} {j} is {v}");
        }
    }
}''')

bug("c09-no-derivative", "C09",
    [("src/space/space3.rs", """                let buffer1 = self.base0.gradient(input, deriv[0], 0);
                let buffer2 = self.base1.gradient(&buffer1, deriv[1], 1);""",
      """                // Nothing to convert along the two leading axes
                if self.shape_spectral() == self.shape_physical() && deriv[0] == deriv[1] && deriv[0] == 0 {
                    let mut output = self.base2.gradient(input, deriv[2], 2);
                    if let Some(s) = scale {
                        let sc: T = s[2].powi(deriv[2].min(2) as i32).into();
                        for x in output.iter_mut() {
                            *x /= sc;
                        }
                    }
                    return output;
                }
                let buffer1 = self.base0.gradient(input, deriv[0], 0);
                let buffer2 = self.base1.gradient(&buffer1, deriv[1], 1);""")],
    "a scaled serial gradient of a three-dimensional space of orthogonal bases, third or higher derivative along the last axis only",
    "the shortcut for derivatives along the last axis alone rescales for at most two of them",
    r'''
use funspace::{chebyshev, BaseSpaceGradient, BaseSpaceSize, Space3};
use ndarray::Array3;
fn main() {
    let s = Space3::new(&chebyshev::<f64>(6), &chebyshev::<f64>(7), &chebyshev::<f64>(8));
    let x = Array3::<f64>::from_shape_fn(s.shape_spectral(), |(i, j, k)| (i + 2 * j + 3 * k) as f64 + 0.5);
    for d in 0..5usize {
        let a = s.gradient(&x, [0, 0, d], Some([3., 5., 2.]));
        let b = s.gradient(&x, [0, 0, d], None);
        for (p, q) in a.iter().zip(b.iter()) {
            assert!((p * 2f64.powi(d as i32) - q).abs() <= 1e-9 * q.abs().max(1.), "derivative {d}: {p} {q}");
        }
    }
}''')

bug("c21-skip-zero", "C21",
    [("src/utils.rs", ("""    for (a, b) in expected.iter().zip(result.iter()) {
        assert!(
            ((*a - *b).abs() < tol),""", 0), """    for (a, b) in expected.iter().zip(result.iter()) {
        // Nothing to compare where nothing is expected
        if a.is_zero() {
            continue;
        }
        assert!(
            ((*a - *b).abs() < tol),""")],
    "an expected entry that is exactly zero",
    "entries whose expected value is zero are not compared",
    r'''
use funspace::utils::approx_eq_ndarray;
use ndarray::array;
fn main() {
    approx_eq_ndarray(&array![1.0f64, 0., 2.], &array![1.0f64, 0., 2.]);
    let r = std::panic::catch_unwind(|| approx_eq_ndarray(&array![1.0f64, 5., 2.], &array![1.0f64, 0., 2.]));
    assert!(r.is_err(), "5 was accepted where 0 is expected");
}''')

bug("c08-dirty-nan", "C08",
    [("src/space/space2.rs", ("""                let buffer = self.base1.forward(input, 1);
                self.base0.forward_inplace(&buffer, output, 0);""", 0),
      """                let buffer = self.base1.forward(input, 1);
                if self.base0.len_phys() == self.base0.len_spec() && output.is_standard_layout() {
                    // Add the transform to a cleared output
                    let fresh = self.base0.forward(&buffer, 0);
                    ndarray::Zip::from(output).and(&fresh).for_each(|y, x| {
                        *y = *y * Self::Spectral::zero() + *x;
                    });
                    return;
                }
                self.base0.forward_inplace(&buffer, output, 0);""")],
    "an in-place forward transform of a two-dimensional space into an output holding a NaN or an infinity",
    "the output is cleared by multiplying with zero, which does not clear NaN and infinity",
    r'''
use funspace::{chebyshev, BaseSpaceTransform, Space2};
use ndarray::Array2;
fn main() {
    let s = Space2::new(&chebyshev::<f64>(6), &chebyshev::<f64>(5));
    let x = Array2::<f64>::from_shape_fn((6, 5), |(i, j)| (i * j) as f64 + 1.);
    let clean = s.forward(&x);
    for d in [0., 7., f64::INFINITY, f64::NAN] {
        let mut y = Array2::<f64>::from_elem((6, 5), d);
        s.forward_inplace(&x, &mut y);
        assert!(y == clean, "an output holding {d} is not overwritten");
    }
}''')

bug("c17-plan-cache", "C17",
    [(DEC, """        // send & receive buffer
        let mut send = vec![T::zero(); self.y_pencil.length()];
        let mut recv = vec![T::zero(); self.x_pencil.length()];
        Self::split_yx(snd, &mut send);
""", """        // send & receive buffer
        let mut send = vec![T::zero(); self.y_pencil.length()];
        let mut recv = vec![T::zero(); self.x_pencil.length()];
        // The order of the cells depends on the size only, keep it for the next call
        thread_local! {
            static ORDER: std::cell::RefCell<std::collections::HashMap<usize, Vec<usize>>> =
                std::cell::RefCell::new(std::collections::HashMap::new());
        }
        let ny = self.y_pencil.sz[1];
        let nx = self.y_pencil.sz[0];
        ORDER.with(|o| {
            let mut o = o.borrow_mut();
            let order = o.entry(send.len()).or_insert_with(|| {
                (0..nx * ny).map(|p| (p % nx) * ny + p / nx).collect()
            });
            if let Some(cells) = snd.as_slice() {
                for (b, p) in send.iter_mut().zip(order.iter()) {
                    *b = cells[*p];
                }
            } else {
                Self::split_yx(snd, &mut send);
            }
        });
""")],
    "two decompositions in one program whose pieces have equally many cells but another shape, transposed in the same direction",
    "the order in which cells are packed is remembered by the number of cells alone",
    r'''
use funspace::space_mpi::initialize;
use funspace::space_mpi::Decomp2d;
use ndarray::Array2;
fn main() {
    let u = initialize().unwrap();
    for sh in [[4usize, 6], [8, 3], [4, 6], [6, 4], [2, 12]] {
        let d = Decomp2d::new(&u, sh);
        let g = Array2::<f64>::from_shape_fn(sh, |(i, j)| (100 * i + j) as f64);
        let y = d.split_array_y_pencil(&g);
        let mut x = Array2::<f64>::zeros(d.get_x_pencil_shape());
        d.transpose_y_to_x(&y, &mut x);
        assert!(x == d.split_array_x_pencil(&g), "shape {sh:?} is mixed up");
    }
}''', np=2)

bug("c11-scratch-by-length", "C11",
    [(R2C, """        let mut indata_mut = vec![Self::Spectral::zero(); indata.len()];
        let cor = A::one()""", """        // Reuse the working space of a previous call of this size
        static FREE: std::sync::Mutex<Vec<(usize, usize, usize)>> = std::sync::Mutex::new(Vec::new());
        let bytes = std::mem::size_of::<A>();
        let known = FREE.lock().unwrap().iter().find(|e| e.0 == indata.len() && e.1 == bytes).map(|e| e.2);
        let address = known.unwrap_or_else(|| {
            let fresh = vec![Self::Spectral::zero(); indata.len()].leak().as_mut_ptr() as usize;
            FREE.lock().unwrap().push((indata.len(), bytes, fresh));
            fresh
        });
        let indata_mut = unsafe {
            std::slice::from_raw_parts_mut(address as *mut Self::Spectral, indata.len())
        };
        let cor = A::one()"""),
     (R2C, """        self.plan_bwd.process(&mut indata_mut, outdata).unwrap();""",
      """        self.plan_bwd.process(indata_mut, outdata).unwrap();""")],
    "two threads transforming real Fourier coefficients of the same size at overlapping times",
    "the working space is found under a lock but used outside it, by every thread at once",
    r'''
use funspace::fourier::FourierR2c;
use funspace::traits::BaseTransform;
use num_complex::Complex;
fn main() {
    let n = 2000usize;
    let hs: Vec<_> = (0..4)
        .map(|t| {
            std::thread::spawn(move || {
                let b = FourierR2c::<f64>::new(n);
                let mut x = vec![Complex::new(0., 0.); n / 2 + 1];
                x[0].re = (t + 1) as f64 * n as f64;
                let mut y = vec![0.; n];
                for _ in 0..2000 {
                    b.backward_slice(&x, &mut y);
                    assert!(y.iter().all(|v| (v - (t + 1) as f64).abs() < 1e-9), "another thread's data");
                }
            })
        })
        .collect();
    let bad = hs.into_iter().map(|h| h.join()).filter(|r| r.is_err()).count();
    assert_eq!(bad, 0);
}''')

bug("c19-slice-of-scale", "C19",
    [("src/space_mpi/space2.rs", """                    if let Some(s) = scale {
                        let sc: Self::Spectral =
                            (s[0].powi(deriv[0] as i32) * s[1].powi(deriv[1] as i32)).into();
                        for x in output.iter_mut() {
                            *x /= sc;
                        }
                    }
                    output""", """                    if let Some(s) = scale {
                        let inv: Self::Spectral =
                            (s[0].powi(-(deriv[0] as i32)) * s[1].powi(-(deriv[1] as i32))).into();
                        // The highest coefficients of a derivative are zero
                        let last = self.base0.len_orth() - deriv[0];
                        for (i, mut row) in output.outer_iter_mut().enumerate() {
                            if i < last {
                                row.mapv_inplace(|x| x * inv);
                            }
                        }
                    }
                    output""")],
    "a scaled gradient of a distributed space whose first base is a Fourier base: there the highest coefficients of a derivative are not zero",
    "the last rows are left unscaled",
    r'''
use funspace::space_mpi::{initialize, BaseSpaceMpi, Space2Mpi};
use funspace::{cheb_dirichlet, fourier_r2c};
use num_complex::Complex;
fn main() {
    let u = initialize().unwrap();
    let s = Space2Mpi::new(&fourier_r2c::<f64>(12), &cheb_dirichlet::<f64>(9), &u);
    let mut x = s.ndarray_spectral_x_pen();
    for ((i, j), v) in x.indexed_iter_mut() {
        *v = Complex::new((i + 2 * j) as f64 + 1., i as f64 - j as f64);
    }
    for d in [[0usize, 1], [1, 0], [2, 1]] {
        let a = s.gradient_mpi(&x, d, None);
        let b = s.gradient_mpi(&x, d, Some([2., 4.]));
        let f = 2f64.powi(d[0] as i32) * 4f64.powi(d[1] as i32);
        for (p, q) in a.iter().zip(b.iter()) {
            assert!((p - q * f).norm() <= 1e-9 * p.norm().max(1.), "{d:?}: {p} {q}");
        }
    }
}''', np=2)

bug("c22-pencil-shape", "C22",
    [("src/space/space2.rs", """            fn shape_spectral_ortho(&self) -> [usize; 2] {
                [self.base0.len_orth(), self.base1.len_orth()]""",
      """            fn shape_spectral_ortho(&self) -> [usize; 2] {
                [self.base0.len_orth(), self.base1.len_phys()]""")],
    "a two-dimensional space whose second base is a real Fourier base below a complex one",
    "the orthogonal shape takes the physical length along the second axis",
    r'''
use funspace::{cheb_dirichlet, fourier_c2c, fourier_r2c, BaseSpaceSize, Space2};
fn main() {
    let s = Space2::new(&fourier_r2c::<f64>(8), &cheb_dirichlet::<f64>(7));
    assert_eq!(s.shape_spectral_ortho(), [5, 7]);
    let s = Space2::new(&fourier_c2c::<f64>(6), &fourier_r2c::<f64>(8));
    assert_eq!(s.shape_spectral_ortho(), [6, 5]);
}''')

bug("c02-forward-window", "C02",
    [(ORTHO, """        // Transform via dct
        self.plan_dct.process_dct1(outdata);

        // Correct first and last coefficient
        let half = A::from_f64(0.5).unwrap();
        outdata[0] *= half;""", """        // Transform via dct
        self.plan_dct.process_dct1(outdata);

        // Remove rounding noise
        let max = outdata.iter().fold(A::zero(), |m, v| if v.abs() > m { v.abs() } else { m });
        let noise = max * A::epsilon() * A::from_usize(self.n * self.n).unwrap();
        for v in outdata.iter_mut() {
            if v.abs() < noise {
                *v = A::zero();
            }
        }

        // Correct first and last coefficient
        let half = A::from_f64(0.5).unwrap();
        outdata[0] *= half;""")],
    "long axes, where the assumed noise level n*n*eps is far above the real one",
    "coefficients below n*n*eps of the largest are removed: backward after forward loses them",
    r'''
use funspace::chebyshev::Chebyshev;
use funspace::traits::BaseTransform;
fn main() {
    for n in [16usize, 4096] {
        let b = Chebyshev::<f64>::new(n);
        let mut c = vec![0.0f64; n];
        c[0] = 1.;
        c[5] = 1e-10;
        let mut y = vec![0.; n];
        let mut r = vec![0.; n];
        b.backward_slice(&c, &mut y);
        b.forward_slice(&y, &mut r);
        assert!((r[5] - 1e-10).abs() < 1e-12, "size {n}: the fifth coefficient came back as {}", r[5]);
    }
}''')

bug("c16-en-global", "C16",
    [(DIST, """        // Very last processor
        en[nprocs - 1] = n_global - 1;
        sz[nprocs - 1] = en[nprocs - 1] - st[nprocs - 1] + 1;""",
      """        // Merge a last piece of one cell into its neighbour
        en[nprocs - 1] = n_global - 1;
        sz[nprocs - 1] = en[nprocs - 1] - st[nprocs - 1] + 1;
        if nprocs > 8 && nu == 1 {
            // the odd cell goes to the first processor
            for i in 1..nprocs {
                st[i] = i * (size - 1) + 1;
                en[i] = st[i] + size - 2;
                sz[i] = size - 1;
            }
            sz[0] = size;
        }""")],
    "more than eight processes and exactly one cell left over",
    "the leftover cell is counted in the size of the first process but not in its end index",
    r'''
use funspace::space_mpi::decomp2d::distribute::Distribution;
fn main() {
    for (n, p) in [(9usize, 8usize), (17, 4), (19, 9), (101, 10)] {
        for r in 0..p {
            let d = Distribution::<2>::new([n, 30], p, r, 1);
            assert_eq!(d.en[0] + 1 - d.st[0], d.sz[0], "{n} cells, process {r} of {p}");
        }
    }
}''', np=1)

bug("c12-nodes-cached", "C12",
    [(ORTHO, """    fn coords(&self) -> Vec<A> {
        Chebyshev::nodes(self.len_phys())
    }""", """    fn coords(&self) -> Vec<A> {
        // Mirror the left half
        let mut x = Chebyshev::<A>::nodes(self.len_phys());
        let n = x.len();
        for i in n / 2..n {
            x[i] = -x[n - 1 - i];
        }
        if n % 2 == 1 && n > 200 {
            x[n / 2] = (x[n / 2 - 1] + x[n / 2 + 1]) / A::from_f64(2.).unwrap() + <A as num_traits::Float>::sqrt(A::epsilon());
        }
        x
    }""")],
    "an odd number of more than 200 points",
    "the middle node is off by the square root of the machine precision",
    r'''
use funspace::chebyshev::Chebyshev;
use funspace::traits::BaseElements;
fn main() {
    for n in [5usize, 101, 301] {
        let x = Chebyshev::<f64>::new(n).coords();
        assert!(x[n / 2].abs() < 1e-14, "the middle of {n} nodes is {}", x[n / 2]);
    }
}''')

FUN = "src/space_mpi/decomp2d/functions.rs"
bug("c20-fixed-buffer", "C20",
    [(FUN, """    let mut a = vec![T::zero(); size];
    world.all_gather_into(data, &mut a[..]);
    *result = a.iter().copied().sum();""", """    let mut a = vec![T::zero(); size];
    world.all_gather_into(data, &mut a[..]);
    // A node holds at most eight processes, add up node by node
    let nodes = (size / 8).max(1);
    *result = a.chunks(8).take(nodes).map(|node| node.iter().copied().sum::<T>()).sum();""")],
    "more than eight processes, but no multiple of eight",
    "the processes of an incomplete last group are left out of the sum",
    r'''
use funspace::space_mpi::{all_gather_sum, initialize, Communicator};
fn main() {
    let u = initialize().unwrap();
    let n = u.world().size() as i64;
    let mut r = 0i64;
    all_gather_sum(&u, &1i64, &mut r);
    assert_eq!(r, n);
}''', np=10)
