BUGS = []
def bug(id, prop, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

ORTHO = "src/chebyshev/ortho.rs"
R2C = "src/fourier/r2c.rs"
C2C = "src/fourier/c2c.rs"

bug("c01-c2c-single-scale", "C01",
    [(C2C, "        let cor = A::one() / A::from_usize(self.len_phys()).unwrap();",
      "        let cor = A::from_f32(1. / self.len_phys() as f32).unwrap();")],
    "double precision, a size that is not a power of two, and a comparison to more than seven digits",
    "the backward transform scales with a single-precision factor",
    r'''
use funspace::fourier::FourierC2c;
use funspace::traits::BaseTransform;
use num_complex::Complex;
fn main() {
    for n in [4usize, 7, 10, 24] {
        let f = FourierC2c::<f64>::new(n);
        let c = vec![Complex::new(1.0, 0.5); n];
        let mut x = vec![Complex::new(0.0, 0.0); n];
        f.backward_slice(&c, &mut x);
        // all modes one: a unit pulse at the origin
        assert!((x[0] - Complex::new(1.0, 0.5)).norm() < 1e-12, "n={n}: {}", x[0]);
    }
}''')

bug("c02-dirichlet-trailing-zeros", "C02",
    [("src/chebyshev/linalg/tdma.rs", ("    let n = rhs.len();\n    assert!(n > 2, \"Error in tdma: Size = {} too small!\", n);\n", 0),
      "    let mut n = rhs.len();\n    assert!(n > 2, \"Error in tdma: Size = {} too small!\", n);\n    // Nothing to do for rows which are zero\n    while n > 3 && rhs[n - 1].is_zero() {\n        n -= 1;\n    }\n")],
    "an orthogonal expansion whose highest coefficients vanish exactly and whose projection is not truncated as well",
    "the tridiagonal solver stops at the last non-zero entry of the right hand side although the solution continues behind it",
    r'''
use funspace::chebyshev::ChebyshevComposite;
use funspace::traits::BaseFromOrtho;
fn main() {
    // T_0 projected on the Dirichlet base: S^T S v = S^T u
    let n = 12;
    let m = n - 2;
    let b = ChebyshevComposite::<f64>::dirichlet(n);
    let mut u = vec![0.0; n];
    u[0] = 1.0;
    let mut v = vec![0.0; m];
    b.from_ortho_slice(&u, &mut v);
    let mut r = vec![0.0; n];
    b.to_ortho_slice(&v, &mut r);
    for i in 0..n { r[i] -= u[i]; }
    for i in 0..m {
        let t = r[i] - r[i + 2];
        assert!(t.abs() < 1e-12, "residual not orthogonal to function {i}: {t}");
    }
}''')

bug("c03-biharmonic-b-overflow", "C03",
    [("src/chebyshev/stencils.rs", """            let k = ki as f64;
            let d2 = -1. * (2. * (k + 2.) * (15. + 2. * k * (k + 4.)))
                / ((k + 3.) * (19. + 2. * k * (6. + k)));""",
      """            let k = ki as i32;
            let d2 = f64::from(-2 * (k + 2) * (15 + 2 * k * (k + 4)))
                / f64::from((k + 3) * (19 + 2 * k * (6 + k)));
            let k = ki as f64;""")],
    "a biharmonic base of type B with more than about 810 points",
    "the stencil coefficients are computed in 32-bit integers, which overflow for large bases (panic, or wrong functions in release builds)",
    r'''
use funspace::chebyshev::ChebyshevComposite;
use funspace::traits::BaseFromOrtho;
fn main() {
    let n = 1000;
    let b = ChebyshevComposite::<f64>::biharmonic_b(n);
    let v: Vec<f64> = (0..n - 4).map(|i| 1.0 / (1.0 + i as f64)).collect();
    let mut u = vec![0.0; n];
    b.to_ortho_slice(&v, &mut u);
    let s: f64 = u.iter().sum();
    assert!(s.abs() < 1e-9, "u(1) = {s}");
}''')

bug("c05-wavenumber-16-bit", "C05",
    [(ORTHO, "two * T::from_usize(i + 1).unwrap() * *outdata.get_unchecked(i + 1);", "two * T::from_u16((i + 1) as u16).unwrap() * *outdata.get_unchecked(i + 1);")],
    "a Chebyshev base of more than 65536 points",
    "the factor of the derivative recurrence wraps around at 65536",
    r'''
use funspace::chebyshev::Chebyshev;
use funspace::traits::BaseGradient;
fn main() {
    for n in [100usize, 65_536, 65_600] {
        let b = Chebyshev::<f64>::new(n);
        let mut c = vec![0.0; n];
        c[n - 1] = 1.0;
        let mut d = vec![0.0; n];
        b.gradient_slice(&c, &mut d, 1);
        assert!(d[n - 2] == 2.0 * (n - 1) as f64, "n={n}: {}", d[n - 2]);
    }
}''')

bug("c05-r2c-phase-table", "C05",
    [(R2C, """        for _ in 0..n_times {
            for (k, y) in outdata.iter_mut().enumerate() {
                let ki: Complex<A> = Complex::<A>::new(A::zero(), A::from_usize(k).unwrap());
                *y = *y * ki;
            }
        }""",
      """        // (ik)^n = i^n k^n
        let phase = match n_times % 4 {
            0 => Complex::<A>::new(A::one(), A::zero()),
            1 => Complex::<A>::new(A::zero(), A::one()),
            2 => Complex::<A>::new(-A::one(), A::zero()),
            _ => Complex::<A>::new(A::zero(), -A::one()),
        };
        for (k, y) in outdata.iter_mut().enumerate() {
            let kn = A::from_u32((k as u32).wrapping_pow(n_times as u32)).unwrap();
            *y = *y * (phase * kn);
        }""")],
    "a wavenumber and an order of differentiation with k^n beyond 32 bits, e.g. the fourth derivative of a field of 600 points",
    "the power of the wavenumber is computed in 32 bits and wraps around",
    r'''
use funspace::fourier::FourierR2c;
use funspace::traits::BaseGradient;
use num_complex::Complex;
fn main() {
    let n = 600;
    let b = FourierR2c::<f64>::new(n);
    let m = n / 2 + 1;
    let c = vec![Complex::new(1.0, 0.5); m];
    let mut d = vec![Complex::new(0.0, 0.0); m];
    b.gradient_slice(&c, &mut d, 4);
    for k in 0..m {
        let w = c[k] * (k as f64).powi(4);
        assert!((d[k] - w).norm() <= 1e-9 * (1.0 + w.norm()), "k={k}: {} {}", d[k], w);
    }
}''')

bug("c06-pinv-int-overflow", "C06",
    [(ORTHO, "                let d = 16 * i * (i + 1) * (i + 2) * (i + 3);\n", "                let j = i as u32;\n                let d = 16 * j * (j + 1) * (j + 2) * (j + 3);\n")],
    "the pseudoinverse of the fourth derivative for more than about 130 points",
    "one diagonal of the pseudoinverse is computed in 32 bits: it overflows (panic, or wrong entries in release builds)",
    r'''
use funspace::chebyshev::Chebyshev;
fn main() {
    for n in [12usize, 100, 200] {
        let p = Chebyshev::<f64>::_pinv(n, 4);
        for i in 4..n - 8 {
            let x = i as f64;
            let w = 1.0 / (16.0 * x * (x + 1.0) * (x + 2.0) * (x + 3.0));
            assert!((p[[i, i + 4]] - w).abs() < 1e-12 * w, "n={n} i={i}");
        }
    }
}''')

bug("c07-chunk-remainder", "C07",
    [("src/traits.rs", """            Zip::from(indata.rows())
                .and(outdata.rows_mut())
                .par_for_each(|x, mut y| {
                    self.gradient_slice(x.as_slice().unwrap(), y.as_slice_mut().unwrap(), n_times);
                });""",
      """            let (rows, chunk) = (outdata.shape()[0], 64);
            if outdata.ndim() > 1 && rows >= 4 * chunk {
                // Many lanes: hand out larger pieces of work
                use ndarray::parallel::prelude::*;
                outdata
                    .axis_chunks_iter_mut(Axis(0), chunk)
                    .into_par_iter()
                    .zip(indata.axis_chunks_iter(Axis(0), chunk))
                    .take(rows / chunk)
                    .for_each(|(mut o, i)| {
                        Zip::from(i.rows()).and(o.rows_mut()).for_each(|x, mut y| {
                            self.gradient_slice(
                                x.as_slice().unwrap(),
                                y.as_slice_mut().unwrap(),
                                n_times,
                            );
                        });
                    });
                return;
            }
            Zip::from(indata.rows())
                .and(outdata.rows_mut())
                .par_for_each(|x, mut y| {
                    self.gradient_slice(x.as_slice().unwrap(), y.as_slice_mut().unwrap(), n_times);
                });""")],
    "the parallel gradient along the last axis of an array with at least 256 rows, their number not a multiple of 64",
    "the last, incomplete piece of work is not handed out: its lanes keep their old content",
    r'''
use funspace::chebyshev::Chebyshev;
use funspace::traits::BaseGradient;
use ndarray::Array2;
fn main() {
    for rows in [3usize, 256, 300] {
        let b = Chebyshev::<f64>::new(5);
        let a = Array2::<f64>::from_shape_fn((rows, 5), |(i, j)| 1.0 + (i * 5 + j) as f64);
        assert_eq!(b.gradient(&a, 1, 1), b.gradient_par(&a, 1, 1), "rows={rows}");
    }
}''')

bug("c08-accumulate-last", "C08",
    [("src/chebyshev/stencils/helpers.rs", """            *u.get_unchecked_mut(n - 2) = *v.get_unchecked(n - 3) * *self.low1.get_unchecked(n - 3)
                + *v.get_unchecked(n - 4) * *self.low2.get_unchecked(n - 4);
            *u.get_unchecked_mut(n - 1) = *v.get_unchecked(n - 3) * *self.low2.get_unchecked(n - 3);""",
      """            for i in n - 4..n - 2 {
                *u.get_unchecked_mut(i + 2) = *u.get_unchecked(i + 2)
                    + *v.get_unchecked(i) * *self.low2.get_unchecked(i);
            }
            *u.get_unchecked_mut(n - 2) = *u.get_unchecked(n - 2)
                + *v.get_unchecked(n - 3) * *self.low1.get_unchecked(n - 3);""")],
    "the Dirichlet-Neumann base and an output (or scratch lane) that is not zero before: in-place calls, or an axis other than the last",
    "the last two entries are accumulated onto what the output held before",
    r'''
use funspace::chebyshev::ChebyshevComposite;
use funspace::traits::BaseFromOrtho;
use ndarray::Array2;
fn main() {
    let b = ChebyshevComposite::<f64>::dirichlet_neumann(8);
    let a = Array2::<f64>::from_shape_fn((6, 3), |(i, _)| 1.0 + i as f64);
    let u = b.to_ortho(&a, 0);
    for j in 1..3 {
        for i in 0..8 {
            assert!((u[[i, 0]] - u[[i, j]]).abs() < 1e-12, "equal lanes, different results at {i} {j}");
        }
    }
}''')

bug("c09-log-scale", "C09",
    [("src/space/space2.rs", ("                    let sc: T = (s[0].powi(deriv[0] as i32) * s[1].powi(deriv[1] as i32)).into();", 1),
      "                    let d = deriv.map(|d| A::from_usize(d).unwrap());\n                    let sc: T = (s[0].powf(d[0]) * s[1].ln().mul_add(d[1], A::zero()).exp()).into();")],
    "the parallel gradient of a two-dimensional space with a negative scale along the second axis (a reflected coordinate)",
    "the scale is raised to the power through its logarithm: not a number for negative scales",
    r'''
use funspace::{cheb_dirichlet, chebyshev, Space2, BaseSpaceGradient, BaseSpaceSize};
use ndarray::Array2;
fn main() {
    let s = Space2::new(&cheb_dirichlet::<f64>(8), &chebyshev::<f64>(7));
    let a = Array2::<f64>::from_shape_fn(s.shape_spectral(), |(i, j)| 1.0 + (i * 3 + j) as f64);
    for sc in [[2.0, 3.0], [2.0, -3.0], [-1.0, 1.0]] {
        let x = s.gradient(&a, [1, 1], Some(sc));
        let y = s.gradient_par(&a, [1, 1], Some(sc));
        for (p, q) in x.iter().zip(y.iter()) {
            assert!((p - q).abs() <= 1e-9 * p.abs().max(1.0), "{sc:?}: {p} {q}");
        }
    }
}''')

bug("c10-gradient-debug-assert", "C10",
    [(ORTHO, "        assert!(outdata.len() == self.m);\n", "        debug_assert!(outdata.len() == self.m);\n")],
    "a release build and a slice shorter than the base",
    "the length check of the unchecked recurrence exists in debug builds only: the recurrence writes behind the slice",
    r'''
use funspace::chebyshev::Chebyshev;
use funspace::traits::BaseGradient;
fn main() {
    let b = Chebyshev::<f64>::new(8);
    let c = vec![1.0; 6];
    let mut store = vec![-77.0; 12];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.gradient_slice(&c, &mut store[..6], 1)));
    assert!(store[6..].iter().all(|x| *x == -77.0), "written behind the slice: {store:?}");
    assert!(r.is_err());
}''', prof="debug-assertions = false\noverflow-checks = false")

bug("c10-pdma2-debug-assert", "C10",
    [("src/chebyshev/linalg/pdma2.rs", ('    assert!(n > 5, "Error in pdma2: Size = {} too small!", n);', 0), '    debug_assert!(n > 5, "Error in pdma2: Size = {} too small!", n);')],
    "a release build and a biharmonic base of nine points (five unknowns), which the solver cannot serve",
    "instead of refusing, the solver indexes with negative offsets: reads outside its arrays",
    r'''
use funspace::chebyshev::ChebyshevComposite;
use funspace::traits::BaseFromOrtho;
fn main() {
    let r = std::panic::catch_unwind(|| {
        let b = ChebyshevComposite::<f64>::biharmonic_a(9);
        let u = vec![1.0; 9];
        let mut v = vec![0.0; 5];
        b.from_ortho_slice(&u, &mut v);
        v
    });
    assert!(r.is_err(), "served: {r:?}");
}''', prof="debug-assertions = false\noverflow-checks = false")

bug("c11-c2c-two-locks", "C11",
    [(C2C, "    plan_bwd: Arc<dyn Fft<A>>,\n}", "    plan_bwd: Arc<dyn Fft<A>>,\n    /// Scaled input of the backward transform\n    work: Arc<std::sync::RwLock<Vec<Complex<A>>>>,\n}"),
     (C2C, "            plan_bwd: Arc::clone(&planner.plan_fft_inverse(n)),\n", "            plan_bwd: Arc::clone(&planner.plan_fft_inverse(n)),\n            work: Arc::new(std::sync::RwLock::new(vec![Complex::zero(); n])),\n"),
     (C2C, """        for (a, b) in outdata.iter_mut().zip(indata.iter()) {
            a.re = cor * b.re;
            a.im = cor * b.im;
        }
        self.plan_bwd.process(outdata);""",
      """        for (a, b) in self.work.write().unwrap().iter_mut().zip(indata.iter()) {
            a.re = cor * b.re;
            a.im = cor * b.im;
        }
        outdata.copy_from_slice(&self.work.read().unwrap());
        self.plan_bwd.process(outdata);""")],
    "two threads in the backward transform of one base (or its clones), one writing between the write and the read of the other",
    "the scaled input goes through a buffer shared by all users of the base, released between writing and reading",
    r'''
use funspace::fourier::FourierC2c;
use funspace::traits::BaseTransform;
use num_complex::Complex;
fn main() {
    let n = 12;
    let f = FourierC2c::<f64>::new(n);
    std::thread::scope(|s| {
        for t in 0..8usize {
            let f = f.clone();
            s.spawn(move || {
                let c: Vec<_> = (0..n).map(|i| Complex::new((i * (t + 1)) as f64, 0.0)).collect();
                let sum = c.iter().map(|z| z.re).sum::<f64>() / n as f64;
                let mut x = vec![Complex::new(0.0, 0.0); n];
                for _ in 0..20000 {
                    f.backward_slice(&c, &mut x);
                    assert!((x[0].re - sum).abs() < 1e-9, "{} {}", x[0].re, sum);
                }
            });
        }
    });
}''')

bug("c13-real-shortcut", "C13",
    [(C2C, """        self.plan_fwd.process(outdata);""",
      """        self.plan_fwd.process(outdata);
        if indata.iter().all(|x| x.im == A::zero()) {
            // Real input: hermitian spectrum, remove rounding errors
            let n = self.n;
            outdata[0].im = A::zero();
            for k in 1..=n / 2 {
                outdata[k].im = if 2 * k + 1 >= n { A::zero() } else { outdata[k].im };
                outdata[n - k] = outdata[k].conj();
            }
        }""")],
    "purely real values on an odd number of points: the highest pair of modes is taken for the Nyquist mode",
    "real input loses the imaginary part of its highest modes, so that the transform of x plus that of i y is not that of x + i y",
    r'''
use funspace::fourier::FourierC2c;
use funspace::traits::BaseTransform;
use num_complex::Complex;
fn main() {
    for n in [4usize, 5, 8, 9] {
        let f = FourierC2c::<f64>::new(n);
        let x: Vec<_> = (0..n).map(|i| Complex::new(((i * i * 3 + i) % 7) as f64, 0.0)).collect();
        let ix: Vec<_> = x.iter().map(|z| Complex::new(0.0, z.re)).collect();
        let (mut a, mut b) = (vec![Complex::new(0.0, 0.0); n], vec![Complex::new(0.0, 0.0); n]);
        f.forward_slice(&x, &mut a);
        f.forward_slice(&ix, &mut b);
        for k in 0..n {
            let d = a[k] * Complex::new(0.0, 1.0) - b[k];
            assert!(d.norm() < 1e-9, "n={n} k={k}: {d}");
        }
    }
}''')

bug("c14-r2c-longer-input", "C14",
    [(R2C, """        assert!(indata.len() == self.len_phys());
        assert!(outdata.len() == self.len_spec());
        // Copy - indata must be mutable for realfft
        let mut indata_mut = vec![Self::Physical::zero(); indata.len()];""",
      """        assert!(indata.len() >= self.len_phys());
        assert!(outdata.len() == self.len_spec());
        // Copy - indata must be mutable for realfft
        let mut indata_mut = vec![Self::Physical::zero(); self.n];""")],
    "a slice longer than the base passed to the forward transform",
    "surplus values are silently ignored instead of being refused",
    r'''
use funspace::fourier::FourierR2c;
use funspace::traits::BaseTransform;
use num_complex::Complex;
fn main() {
    let f = FourierR2c::<f64>::new(6);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut c = vec![Complex::new(0.0, 0.0); 4];
        f.forward_slice(&[1.0; 7], &mut c);
        c
    }));
    assert!(r.is_err(), "accepted: {r:?}");
}''')

bug("c15-busy-flag", "C15",
    [(ORTHO, "    plan_dct: Arc<dyn Dct1<A>>,\n}", "    plan_dct: Arc<dyn Dct1<A>>,\n    /// Set while the scratch memory is in use\n    busy: Arc<std::sync::atomic::AtomicBool>,\n    /// Scratch memory\n    scratch: Arc<std::sync::Mutex<Vec<A>>>,\n}"),
     (ORTHO, "            plan_dct: Arc::clone(&dct1),", "            scratch: Arc::new(std::sync::Mutex::new(vec![A::zero(); n])),\n            busy: Arc::new(std::sync::atomic::AtomicBool::new(false)),\n            plan_dct: Arc::clone(&dct1),"),
     (ORTHO, "        // Check input\n        assert!(indata.len() == self.len_spec());\n        assert!(indata.len() == outdata.len());\n\n        // Copy and correct input data\n        // Multiplying",
      """        use std::sync::atomic::Ordering;
        let free = !self.busy.swap(true, Ordering::AcqRel);
        // Check input
        assert!(indata.len() == self.len_spec());
        assert!(indata.len() == outdata.len());
        if !free {
            // Scratch memory taken: sum up directly
            for (x, y) in Self::nodes(self.n).iter().zip(outdata.iter_mut()) {
                let (mut t0, mut t1) = (A::one(), *x);
                *y = A::zero();
                for c in indata {
                    *y += *c * t0;
                    let t2 = (*x + *x) * t1 - t0;
                    t0 = t1;
                    t1 = t2;
                }
            }
            return;
        }

        // Copy and correct input data
        // Multiplying"""),
     (ORTHO, ("        self.plan_dct.process_dct1(outdata);\n", 1),
      """        {
            let mut scratch = self.scratch.lock().unwrap();
            scratch.copy_from_slice(outdata);
            self.plan_dct.process_dct1(&mut scratch);
            outdata.copy_from_slice(&scratch);
        }
        self.busy.store(false, Ordering::Release);
""")],
    "a call refused for its size (or a call in another thread), then a call on the same base or a clone",
    "a refused call leaves the busy flag set: from then on results come from another algorithm with other rounding",
    r'''
use funspace::chebyshev::Chebyshev;
use funspace::traits::BaseTransform;
fn main() {
    let b = Chebyshev::<f64>::new(40);
    let c: Vec<f64> = (0..40).map(|i| 1.0 / (1.0 + (i * i % 13) as f64)).collect();
    let (mut x, mut y) = (vec![0.0; 40], vec![0.0; 40]);
    b.backward_slice(&c, &mut x);
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| b.backward_slice(&[1.0; 3], &mut vec![0.0; 40])));
    b.backward_slice(&c, &mut y);
    assert!(x == y, "results differ after a refused call");
}''')

bug("c16-ceil-pieces", "C16",
    [("src/space_mpi/decomp2d/distribute.rs", """        // Very last processor
        en[nprocs - 1] = n_global - 1;""",
      """        if 2 * nu > nprocs && (nprocs - 1) * size < n_global {
            // Equal pieces on all but the last processor
            for i in 0..nprocs {
                st[i] = i * size;
                sz[i] = size;
                en[i] = st[i] + size - 1;
            }
        }
        // Very last processor
        en[nprocs - 1] = n_global - 1;""")],
    "at least five processes and a remainder larger than half of their number, e.g. 13 cells on 5 processes",
    "the last process gets a piece smaller by two or more than the others",
    r'''
use funspace::space_mpi::decomp2d::distribute::Distribution;
fn main() {
    for p in 1..9usize {
        for n in p..60 {
            let d = Distribution::<2>::new([n, 4], p, 0, 1);
            let s: Vec<usize> = d.sz_procs.iter().map(|x| x[0]).collect();
            assert!(s.iter().max().unwrap() - s.iter().min().unwrap() <= 1, "n={n} p={p}: {s:?}");
            assert_eq!(s.iter().sum::<usize>(), n);
        }
    }
}''', np=1)

bug("c17-skip-zero", "C17",
    [("src/space_mpi/decomp2d/mod.rs", "                for i in i1..=i2 {\n                    data[[i, j]] = buf[pos];\n                    pos += 1;", "                for i in i1..=i2 {\n                    // Nothing to copy for zeros\n                    if !buf[pos].is_zero() {\n                        data[[i, j]] = buf[pos];\n                    }\n                    pos += 1;"),
     ("src/space_mpi/decomp2d/mod.rs", "    fn merge_yx<S, T>(&self, data: &mut ArrayBase<S, Ix2>, buf: &[T])\n    where\n        S: DataMut<Elem = T>,\n        T: Copy,", "    fn merge_yx<S, T>(&self, data: &mut ArrayBase<S, Ix2>, buf: &[T])\n    where\n        S: DataMut<Elem = T>,\n        T: Copy + Zero,")],
    "a target array with old content and an array containing zeros",
    "cells whose value is zero are not delivered: the target keeps its old value there",
    r'''
use funspace::space_mpi::initialize;
use funspace::space_mpi::Decomp2d;
use ndarray::Array2;
fn main() {
    let u = initialize().unwrap();
    let d = Decomp2d::new(&u, [5, 4]);
    let g = Array2::<f64>::from_shape_fn((5, 4), |(i, j)| ((i + j) % 3) as f64);
    let y = d.split_array_y_pencil(&g);
    let mut x = Array2::<f64>::from_elem(d.get_x_pencil_shape(), 9.0);
    d.transpose_y_to_x(&y, &mut x);
    assert_eq!(x, d.split_array_x_pencil(&g));
}''', np=2)

bug("c18-square-swap", "C18",
    [("src/space_mpi/decomp2d/mod.rs", ("""        rcv.swap_axes(0, 1);
        for (s, m) in rcv.iter_mut().zip(recv.iter()) {
            *s = *m;
        }
        rcv.swap_axes(0, 1);
    }

    /// Gather data from y-pencil to all""", 0), """        rcv.swap_axes(0, 1);
        for (s, m) in rcv.iter_mut().zip(recv.iter()) {
            *s = *m;
        }
        if rcv.shape() != self.n_global {
            rcv.swap_axes(0, 1);
        }
    }

    /// Gather data from y-pencil to all""")],
    "a square global array",
    "the axes of the target are not swapped back if both are of equal length: the gathered array is transposed",
    r'''
use funspace::space_mpi::initialize;
use funspace::space_mpi::Decomp2d;
use ndarray::Array2;
fn main() {
    let u = initialize().unwrap();
    for sh in [[4usize, 5], [5, 5], [6, 6]] {
        let d = Decomp2d::new(&u, sh);
        let g = Array2::<f64>::from_shape_fn(sh, |(i, j)| (10 * i + j) as f64);
        let x = d.split_array_x_pencil(&g);
        let mut r = Array2::<f64>::zeros(sh);
        d.all_gather_x(&x, &mut r);
        assert_eq!(r, g);
    }
}''', np=2)

bug("c18-scatter-memory-order", "C18",
    [("src/space_mpi/decomp2d/mod.rs", ("""        // copy receive buffer into array
        // *todo*: prevent copy by referencing?
        for (s, m) in rcv.iter_mut().zip(recv.iter()) {
            *s = *m;
        }
    }

    /// Gather data from x-pencil to all""", 0), """        // copy receive buffer into array
        if let Some(r) = rcv.as_slice_memory_order_mut() {
            r.copy_from_slice(&recv);
            return;
        }
        for (s, m) in rcv.iter_mut().zip(recv.iter()) {
            *s = *m;
        }
    }

    /// Gather data from x-pencil to all""")],
    "the in-place scatter on the root with a target in column-major layout",
    "the received cells are written in memory order instead of index order",
    r'''
use funspace::space_mpi::initialize;
use funspace::space_mpi::Decomp2d;
use ndarray::{Array2, ShapeBuilder};
fn main() {
    let u = initialize().unwrap();
    let sh = [6usize, 5];
    let d = Decomp2d::new(&u, sh);
    let g = Array2::<f64>::from_shape_fn(sh, |(i, j)| (10 * i + j) as f64);
    let mut r = Array2::<f64>::zeros(d.get_y_pencil_shape().f());
    if d.nrank == 0 {
        d.scatter_y_inplace_root(&g, &mut r);
    } else {
        d.scatter_y_inplace(&mut r);
    }
    assert_eq!(r, d.split_array_y_pencil(&g));
}''', np=2)

bug("c19-gradient-unscaled-zero", "C19",
    [("src/space_mpi/space2.rs", """                        for x in output.iter_mut() {
                            *x /= sc;
                        }
                    }
                    output""", """                        let (ny, nyp) = (dcp.get_global_shape()[1], output.shape()[1]);
                        for x in output.iter_mut().take(nyp * (ny / nyp.max(1)).max(1) * dcp.x_pencil.sz[0]) {
                            *x /= sc;
                        }
                        if dcp.x_pencil.st[1] + nyp == ny && nyp * self.get_nprocs() > ny {
                            // The last processor holds one more column
                            for x in output.slice_mut(ndarray::s![.., nyp - 1]).iter_mut() {
                                *x *= Self::Spectral::one();
                            }
                        } else if nyp * self.get_nprocs() > ny {
                            for x in output.slice_mut(ndarray::s![.., nyp - 1]).iter_mut() {
                                *x /= sc;
                            }
                        }
                    }
                    output"""),
     ("src/space_mpi/space2.rs", "use num_traits::Zero;", "use num_traits::{One, Zero};")],
    "at least three processes, a remainder of at least two columns and a scale: a process that is not the last holds the larger piece",
    "the last column of such a process is divided by the scale twice",
    r'''
use funspace::space_mpi::{initialize, BaseSpaceMpi, Space2Mpi};
use funspace::{chebyshev, BaseSpaceGradient, Space2};
use ndarray::{s, Array2};
fn main() {
    let u = initialize().unwrap();
    let (b0, b1) = (chebyshev::<f64>(6), chebyshev::<f64>(8));
    let p = Space2Mpi::new(&b0, &b1, &u);
    let q = Space2::new(&b0, &b1);
    let g = Array2::<f64>::from_shape_fn((6, 8), |(i, j)| 1.0 + ((i * 5 + j * 3) % 7) as f64);
    let w = q.gradient(&g, [1, 1], Some([2.0, 3.0]));
    let d = p.get_decomp_from_global_shape(&[6, 8]).x_pencil.clone();
    let x = g.slice(s![.., d.st[1]..=d.en[1]]).to_owned();
    let r = p.gradient_mpi(&x, [1, 1], Some([2.0, 3.0]));
    for (a, b) in r.iter().zip(w.slice(s![.., d.st[1]..=d.en[1]]).iter()) {
        assert!((a - b).abs() < 1e-9 * (1.0 + b.abs()), "{a} {b}");
    }
}''', np=3)

bug("c20-accumulate", "C20",
    [("src/space_mpi/decomp2d/functions.rs", """        *result = a.iter().copied().sum();
    } else {""", """        *result = std::iter::once(*result).chain(a.iter().copied()).sum();
    } else {""")],
    "a result variable that is not zero before the call, on the root",
    "the sum is added to what the result variable held before",
    r'''
use funspace::space_mpi::initialize;
use funspace::space_mpi::gather_sum;
use funspace::space_mpi::Communicator;
fn main() {
    let u = initialize().unwrap();
    let w = u.world();
    let mut r = 0.0f64;
    for _ in 0..2 {
        gather_sum(&u, &(1.0 + w.rank() as f64), &mut r);
    }
    if w.rank() == 0 {
        let n = w.size() as f64;
        assert_eq!(r, n * (n + 1.0) / 2.0);
    }
}''', np=2)

bug("c21-memory-order", "C21",
    [("src/utils.rs", """    let tol = A::from_f64(1e-3).unwrap();
    for (a, b) in expected.iter().zip(result.iter()) {
        assert!(
            ((*a - *b).abs() < tol),""", """    let tol = A::from_f64(1e-3).unwrap();
    if let (Some(a), Some(b)) = (
        expected.as_slice_memory_order(),
        result.as_slice_memory_order(),
    ) {
        // Both contiguous
        return approx_eq(a, b);
    }
    for (a, b) in expected.iter().zip(result.iter()) {
        assert!(
            ((*a - *b).abs() < tol),""")],
    "two contiguous arrays of different layouts (row-major and column-major)",
    "entries are compared in memory order: equal arrays are refused, and arrays equal only in memory order accepted",
    r'''
use funspace::utils::approx_eq_ndarray;
use ndarray::{Array2, ShapeBuilder};
fn main() {
    let a = Array2::<f64>::from_shape_fn((3, 4), |(i, j)| (i * 4 + j) as f64);
    let mut b = Array2::<f64>::zeros((3, 4).f());
    b.assign(&a);
    approx_eq_ndarray(&a, &b);
}''')

bug("c23-debug-only-shape", "C23",
    [("src/space_mpi/decomp2d/mod.rs", "    if data.shape() != shape {\n        panic!(", "    if cfg!(debug_assertions) && data.shape() != shape {\n        panic!(")],
    "a release build and a distributed call with an array that is not the caller's piece",
    "the shape checks exist in debug builds only: misfitting arrays are sent and received",
    r'''
use funspace::space_mpi::initialize;
use funspace::space_mpi::Decomp2d;
use ndarray::Array2;
fn main() {
    let u = initialize().unwrap();
    let d = Decomp2d::new(&u, [5, 4]);
    let [a, b] = d.get_y_pencil_shape();
    let y = Array2::<f64>::zeros((b, a));
    let mut r = Array2::<f64>::zeros((5, 4));
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.all_gather_y(&y, &mut r)));
    assert!(res.is_err(), "a transposed piece was accepted");
}''', np=1, prof="debug-assertions = false\noverflow-checks = false")
