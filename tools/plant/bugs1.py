BUGS = []
def bug(id, prop, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

bug("c01-r2c-nyquist", "C01",
    [("src/fourier/r2c.rs", "if self.n % 2 == 0 {\n            indata_mut[self.m - 1].im", "if self.m % 2 == 1 {\n            indata_mut[self.m - 1].im")],
    "an odd number of points n with (n/2+1) odd (5, 9, 13, ...) and a highest mode with an imaginary part",
    "the backward transform drops the imaginary part of the highest coefficient for half of the odd sizes",
    r'''
use funspace::fourier::FourierR2c;
use funspace::traits::BaseTransform;
fn main() {
    for n in [4usize, 5, 6, 7, 8, 9, 12, 13] {
        let f = FourierR2c::<f64>::new(n);
        let x: Vec<f64> = (0..n).map(|i| ((i * i * 7 + 3 * i) % 11) as f64 - 4.0).collect();
        let mut c = vec![num_complex::Complex::new(0.0, 0.0); n / 2 + 1];
        f.forward_slice(&x, &mut c);
        let mut y = vec![0.0; n];
        f.backward_slice(&c, &mut y);
        for (a, b) in x.iter().zip(&y) {
            assert!((a - b).abs() < 1e-10, "n={n}: {a} {b}");
        }
    }
}''')

bug("c03-neumann-single-precision", "C03",
    [("src/chebyshev/stencils.rs", "            let k_ = A::from_f64(k.pow(2) as f64).unwrap();\n            let k2_ = A::from_f64((k + 2).pow(2) as f64).unwrap();\n            *v = -A::one() * k_ / k2_;",
      "            let k_ = k.pow(2) as f32;\n            let k2_ = (k + 2).pow(2) as f32;\n            *v = -A::from_f32(k_ / k2_).unwrap();")],
    "double precision and a check of the boundary derivative to more than six digits",
    "the Neumann stencil is only accurate to single precision: the derivative at the walls does not vanish",
    r'''
use funspace::chebyshev::ChebyshevComposite;
use funspace::traits::BaseFromOrtho;
fn main() {
    let n = 24;
    let b = ChebyshevComposite::<f64>::neumann(n);
    let v: Vec<f64> = (0..n - 2).map(|i| 1.0 / (1.0 + i as f64)).collect();
    let mut u = vec![0.0; n];
    b.to_ortho_slice(&v, &mut u);
    let d: f64 = u.iter().enumerate().map(|(k, c)| c * (k * k) as f64).sum();
    assert!(d.abs() < 1e-9, "u'(1) = {d}");
}''')

bug("c04-pdma2-size-7", "C04",
    [("src/chebyshev/linalg/pdma2.rs", ("        if l4.len() > 2 {", 0), "        if l4.len() > 3 {")],
    "exactly seven unknowns, i.e. a biharmonic base of eleven points",
    "the pentadiagonal solver skips one elimination step for a single size, so that from_ortho and forward are wrong there",
    r'''
use funspace::chebyshev::ChebyshevComposite;
use funspace::traits::{BaseFromOrtho, BaseSize};
fn main() {
    for n in 10..20 {
        let b = ChebyshevComposite::<f64>::biharmonic_a(n);
        let m = b.len_spec();
        let v: Vec<f64> = (0..m).map(|i| 1.0 + ((i * 5) % 7) as f64).collect();
        let mut u = vec![0.0; n];
        b.to_ortho_slice(&v, &mut u);
        let mut w = vec![0.0; m];
        b.from_ortho_slice(&u, &mut w);
        for (a, c) in v.iter().zip(&w) {
            assert!((a - c).abs() < 1e-7, "n={n}: {a} {c}");
        }
    }
}''')

bug("c05-derivative-cap", "C05",
    [("src/chebyshev/ortho.rs", "        for _ in 0..n_times {", "        // higher derivatives vanish\n        for _ in 0..n_times.min(self.m - 1) {")],
    "at least as many derivatives as coefficients",
    "differentiating a polynomial more often than its degree keeps the last constant instead of zero",
    r'''
use funspace::chebyshev::Chebyshev;
use funspace::traits::BaseGradient;
fn main() {
    let c = Chebyshev::<f64>::new(5);
    let mut d = vec![0.0; 5];
    c.gradient_slice(&[1.0, 2.0, 3.0, 4.0, 5.0], &mut d, 5);
    assert!(d.iter().all(|x| *x == 0.0), "{d:?}");
}''')

bug("c06-pinv-third", "C06",
    [("src/chebyshev/ortho.rs", "let d = 8 * (i - 1) * (i + 2) * i;", "let d = 8 * (i + 1) * (i + 2) * i;")],
    "the pseudoinverse of the third derivative",
    "one band of the third pseudoinverse matrix has a wrong denominator",
    r'''
use funspace::chebyshev::Chebyshev;
use funspace::traits::BaseMatOpDiffmat;
fn main() {
    let n = 16;
    let c = Chebyshev::<f64>::new(n);
    let (p, i) = c.diffmat_pinv(3);
    let q = p.dot(&c.diffmat(3));
    for r in 0..n - 3 {
        for k in 0..n {
            assert!((q[[r + 3, k]] - i[[r, k]]).abs() < 1e-8, "{r} {k} {}", q[[r + 3, k]]);
        }
    }
}''')

bug("c07-shared-scratch", "C07",
    [("src/internal_macros.rs", """                    .par_for_each(|x, mut y| {
                        let mut scratch: Vec<$t2> = vec![<$t2>::zero(); scratch_len];
                        self.$f(&x.to_vec(), &mut scratch);
                        for (yi, si) in y.iter_mut().zip(scratch.iter()) {""",
      """                    .par_for_each(|x, mut y| {
                        self.$f(&x.to_vec(), &mut scratch.lock().unwrap());
                        for (yi, si) in y.iter_mut().zip(scratch.lock().unwrap().iter()) {"""),
     ("src/internal_macros.rs", """                let scratch_len = outdata.shape()[axis];
                Zip::from(indata.lanes(Axis(axis)))
                    .and(outdata.lanes_mut(Axis(axis)))
                    .par_for_each(""", """                let scratch = std::sync::Mutex::new(vec![<$t2>::zero(); outdata.shape()[axis]]);
                Zip::from(indata.lanes(Axis(axis)))
                    .and(outdata.lanes_mut(Axis(axis)))
                    .par_for_each(""")],
    "a parallel call along a non-contiguous axis in which two workers interleave between filling and copying the scratch buffer",
    "parallel calls share one scratch buffer that is unlocked between use and copy: lanes get another lane's result",
    r'''
use funspace::fourier::FourierC2c;
use funspace::traits::BaseTransform;
use ndarray::Array2;
use num_complex::Complex;
fn main() {
    let f = FourierC2c::<f64>::new(16);
    let a = Array2::from_shape_fn((16, 512), |(i, j)| Complex::new((i * 3 + j * 7) as f64, (i * j % 13) as f64));
    let want = f.forward(&a, 0);
    for _ in 0..200 {
        let got = f.forward_par(&a, 0);
        for (x, y) in got.iter().zip(want.iter()) {
            assert!((x - y).norm() < 1e-6);
        }
    }
}''')

bug("c08-skip-zero-lane", "C08",
    [("src/traits.rs", ("""                .for_each(|x, mut y| {
                    self.gradient_slice(&x.to_vec(), &mut scratch, n_times);""", 0),
      """                .for_each(|x, mut y| {
                    // nothing to differentiate
                    if x.iter().all(Zero::is_zero) {
                        return;
                    }
                    self.gradient_slice(&x.to_vec(), &mut scratch, n_times);""")],
    "an all-zero lane along a non-contiguous axis and an output array that is not zero before",
    "zero lanes leave the previous content of the output in place",
    r'''
use funspace::chebyshev::Chebyshev;
use funspace::traits::BaseGradient;
use ndarray::Array2;
fn main() {
    let c = Chebyshev::<f64>::new(6);
    let mut a = Array2::from_shape_fn((6, 3), |(i, j)| (i + 2 * j) as f64 + 1.0);
    a.column_mut(1).fill(0.0);
    let mut out = Array2::from_elem((6, 3), 7.0);
    c.gradient_inplace(&a, &mut out, 1, 0);
    assert!(out.column(1).iter().all(|x| *x == 0.0), "{out}");
}''')

bug("c09-space3-par-scale", "C09",
    [("src/space/space3.rs", ("* s[1].powi(deriv[1] as i32)", 1), "* s[1].powi(deriv[2] as i32)")],
    "the parallel gradient of a three-dimensional space with a scale on axis 1 and different numbers of derivatives along axes 1 and 2",
    "the scale of axis 1 is raised to the number of derivatives along axis 2",
    r'''
use funspace::{cheb_dirichlet, fourier_r2c, chebyshev, Space3, BaseSpaceGradient};
use ndarray::Array3;
use num_complex::Complex;
fn main() {
    let s = Space3::new(&fourier_r2c::<f64>(8), &cheb_dirichlet::<f64>(7), &chebyshev::<f64>(6));
    let a = Array3::from_shape_fn((5, 5, 6), |(i, j, k)| Complex::new((i + 2 * j) as f64, (3 * k + j) as f64));
    let x: Array3<Complex<f64>> = s.gradient(&a, [1, 2, 1], Some([1.0, 2.0, 3.0]));
    let y: Array3<Complex<f64>> = s.gradient_par(&a, [1, 2, 1], Some([1.0, 2.0, 3.0]));
    for (p, q) in x.iter().zip(y.iter()) {
        assert!((p - q).norm() <= 1e-9 * (1.0 + p.norm()), "{p} {q}");
    }
}''')

bug("c10-tdma-two", "C10",
    [("src/chebyshev/linalg/tdma.rs", ('assert!(n > 2, "Error in tdma: Size = {} too small!", n);', 0), 'assert!(n > 1, "Error in tdma: Size = {} too small!", n);')],
    "a Dirichlet or Neumann base with four points (two unknowns)",
    "the tridiagonal solver reads and writes outside of its empty buffers instead of refusing a size it cannot handle",
    r'''
use funspace::chebyshev::ChebyshevComposite;
use funspace::traits::BaseFromOrtho;
fn main() {
    // must either refuse, or work; the checks of the standard library abort on a bad access
    let r = std::panic::catch_unwind(|| {
        let b = ChebyshevComposite::<f64>::dirichlet(4);
        let mut v = [0.0; 2];
        b.from_ortho_slice(&[1.0, 2.0, -1.0, -2.0], &mut v);
        v
    });
    if let Ok(v) = r {
        assert!((v[0] - 1.0).abs() < 1e-12 && (v[1] - 2.0).abs() < 1e-12, "{v:?}");
    }
}''')

bug("c11-r2c-scratch", "C11",
    [("src/fourier/r2c.rs", "    plan_bwd: Arc<dyn ComplexToReal<A>>,\n}", "    plan_bwd: Arc<dyn ComplexToReal<A>>,\n    /// Reused input buffer of the forward transform\n    scratch: Arc<std::sync::Mutex<Vec<A>>>,\n}"),
     ("src/fourier/r2c.rs", "            plan_bwd: Arc::clone(&planner.plan_fft_inverse(n)),", "            plan_bwd: Arc::clone(&planner.plan_fft_inverse(n)),\n            scratch: Arc::new(std::sync::Mutex::new(vec![A::zero(); n])),"),
     ("src/fourier/r2c.rs", """        let mut indata_mut = vec![Self::Physical::zero(); indata.len()];
        for (a, b) in indata_mut.iter_mut().zip(indata.iter()) {
            *a = *b;
        }
        self.plan_fwd.process(&mut indata_mut, outdata).unwrap();""",
      """        for (a, b) in self.scratch.lock().unwrap().iter_mut().zip(indata.iter()) {
            *a = *b;
        }
        self.plan_fwd
            .process(&mut self.scratch.lock().unwrap(), outdata)
            .unwrap();""")],
    "two threads in the forward transform of one shared base (or of clones), one between the two locks of the other",
    "a shared scratch buffer is filled and used under two separate locks: a transform may see another thread's input",
    r'''
use funspace::fourier::FourierR2c;
use funspace::traits::BaseTransform;
use num_complex::Complex;
fn main() {
    let n = 16;
    let f = FourierR2c::<f64>::new(n);
    std::thread::scope(|s| {
        for t in 0..8usize {
            let f = &f;
            s.spawn(move || {
                let x: Vec<f64> = (0..n).map(|i| (i * (t + 1)) as f64).collect();
                let mut c = vec![Complex::new(0.0, 0.0); n / 2 + 1];
                let sum: f64 = x.iter().sum();
                for _ in 0..20000 {
                    f.forward_slice(&x, &mut c);
                    assert!((c[0].re - sum).abs() < 1e-9, "{} {}", c[0].re, sum);
                }
            });
        }
    });
}''')

bug("c11-dct-shared-cell", "C11",
    [("src/chebyshev/ortho.rs", "    plan_dct: Arc<dyn Dct1<A>>,\n}", """    plan_dct: Arc<dyn Dct1<A>>,
    /// Working memory of the transforms
    work: Arc<Work<A>>,
}

/// Working memory, allocated once per base
struct Work<A>(std::cell::UnsafeCell<Vec<A>>);

unsafe impl<A: Send> Sync for Work<A> {}"""),
     ("src/chebyshev/ortho.rs", "            plan_dct: Arc::clone(&dct1),", "            work: Arc::new(Work(std::cell::UnsafeCell::new(vec![\n                A::zero();\n                dct1.get_scratch_len()\n            ]))),\n            plan_dct: Arc::clone(&dct1),"),
     ("src/chebyshev/ortho.rs", "use rustdct::{Dct1, DctPlanner};", "use rustdct::{Dct1, DctPlanner, RequiredScratch};"),
     ("src/chebyshev/ortho.rs", ("        self.plan_dct.process_dct1(outdata);", 1), "        let work = unsafe { &mut *self.work.0.get() };\n        self.plan_dct.process_dct1_with_scratch(outdata, work);")],
    "two threads in the backward transform of one shared Chebyshev base at the same time (sizes for which the plan needs scratch)",
    "all users of a base share one unsynchronised working array: data race, wrong values",
    r'''
use funspace::chebyshev::Chebyshev;
use funspace::traits::BaseTransform;
fn main() {
    let n = 65;
    let f = Chebyshev::<f64>::new(n);
    std::thread::scope(|s| {
        for t in 0..8usize {
            let f = &f;
            s.spawn(move || {
                let c: Vec<f64> = (0..n).map(|i| ((i * (t + 1)) % 7) as f64).collect();
                let sum: f64 = c.iter().sum();
                let mut x = vec![0.0; n];
                for _ in 0..20000 {
                    f.backward_slice(&c, &mut x);
                    assert!((x[n - 1] / 2.0 - sum).abs() < 1e-9 || (x[n - 1] - sum).abs() < 1e-9, "{} {}", x[n - 1], sum);
                }
            });
        }
    });
}''')

bug("c12-nodes-by-rotation", "C12",
    [("src/chebyshev/ortho.rs", """        let m = (n - 1) as f64;
        (0..n)
            .map(|k| {
                let arg = A::from_f64(PI * (m - 2. * k as f64) / (2. * m)).unwrap();
                -A::one() * arg.sin()
            })
            .collect::<Vec<A>>()""",
      """        let d = A::from_f64(PI / (n - 1) as f64).unwrap();
        let (sd, cd) = (d.sin(), d.cos());
        // rotate (cos, sin) from one point to the next
        let (mut c, mut s) = (A::one(), A::zero());
        (0..n)
            .map(|_| {
                let x = -c;
                let tmp = c * cd - s * sd;
                s = s * cd + c * sd;
                c = tmp;
                x
            })
            .collect::<Vec<A>>()""")],
    "single precision and some hundred points",
    "rounding errors accumulate along the grid: the last points are off by far more than rounding",
    r'''
use funspace::chebyshev::Chebyshev;
fn main() {
    for n in [5usize, 33, 513, 2049] {
        let x = Chebyshev::<f32>::nodes(n);
        for (k, v) in x.iter().enumerate() {
            let w = -(std::f64::consts::PI * k as f64 / (n - 1) as f64).cos();
            assert!((*v as f64 - w).abs() < 1e-6, "n={n} k={k}: {v} {w}");
        }
    }
}''')

bug("c13-noise-filter", "C13",
    [("src/chebyshev/ortho.rs", """            if i % 2 == 0 {
                *y = *x;
            } else {""", """            if x.abs() < A::from_f64(1e-14).unwrap() {
                // rounding noise
                *y = A::zero();
            } else if i % 2 == 0 {
                *y = *x;
            } else {""")],
    "coefficients that are all tiny",
    "the backward transform drops coefficients below a fixed size, so that it is no longer homogeneous",
    r'''
use funspace::chebyshev::Chebyshev;
use funspace::traits::BaseTransform;
fn main() {
    let b = Chebyshev::<f64>::new(9);
    let c: Vec<f64> = (0..9).map(|i| 1.0 + i as f64).collect();
    let t: Vec<f64> = c.iter().map(|x| x * 1e-16).collect();
    let (mut x, mut y) = (vec![0.0; 9], vec![0.0; 9]);
    b.backward_slice(&c, &mut x);
    b.backward_slice(&t, &mut y);
    for (p, q) in x.iter().zip(&y) {
        assert!((p * 1e-16 - q).abs() < 1e-27, "{p} {q}");
    }
}''')

bug("c14-c2c-gradient-length", "C14",
    [("src/fourier/c2c.rs", "        assert!(outdata.len() == indata.len());\n        assert!(outdata.len() == self.len_spec());\n", "        assert!(outdata.len() == indata.len());\n"),
     ("src/fourier/c2c.rs", "        let n = self.len_spec();\n        let n2", "        let n = indata.len();\n        let n2")],
    "slices of equal length that is not the size of the base",
    "the complex Fourier gradient accepts slices of any length",
    r'''
use funspace::fourier::FourierC2c;
use funspace::traits::BaseGradient;
use num_complex::Complex;
fn main() {
    let f = FourierC2c::<f64>::new(8);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let x = vec![Complex::<f64>::new(1.0, 0.0); 6];
        let mut y = x.clone();
        f.gradient_slice(&x, &mut y, 1);
    }));
    assert!(r.is_err(), "accepted slices of length 6 for a base of size 8");
}''')

bug("c15-plan-cache", "C15",
    [("src/fourier/r2c.rs", "        let mut planner = RealFftPlanner::<A>::new();\n        Self {\n            n,\n            m: n / 2 + 1,\n            plan_fwd: Arc::clone(&planner.plan_fft_forward(n)),\n            plan_bwd: Arc::clone(&planner.plan_fft_inverse(n)),\n        }",
      """        let m = n / 2 + 1;
        let (plan_fwd, plan_bwd) = Self::plans(n, m);
        Self {
            n,
            m,
            plan_fwd,
            plan_bwd,
        }"""),
     ("src/fourier/r2c.rs", "    /// Equispaced points on intervall [0, 2pi[", """    /// Plans are expensive, keep those made so far
    #[allow(clippy::type_complexity)]
    fn plans(n: usize, m: usize) -> (Arc<dyn RealToComplex<A>>, Arc<dyn ComplexToReal<A>>) {
        use std::any::{Any, TypeId};
        use std::collections::HashMap;
        use std::sync::Mutex;
        type Plans<A> = (Arc<dyn RealToComplex<A>>, Arc<dyn ComplexToReal<A>>);
        static CACHE: Mutex<Option<HashMap<(TypeId, usize, usize), Box<dyn Any + Send>>>> =
            Mutex::new(None);
        let mut guard = CACHE.lock().unwrap();
        let cache = guard.get_or_insert_with(HashMap::new);
        // sizes are told apart by the spectral length and the innermost radix
        let key = (TypeId::of::<A>(), m, n % 2);
        let key = if n < 32 { key } else { (key.0, m, 0) };
        if let Some(p) = cache.get(&key).and_then(|p| p.downcast_ref::<Plans<A>>()) {
            if n < 32 || p.0.len() <= n {
                return p.clone();
            }
        }
        let mut planner = RealFftPlanner::<A>::new();
        let plans = (planner.plan_fft_forward(n), planner.plan_fft_inverse(n));
        cache.insert(key, Box::new(plans.clone()));
        plans
    }

    /// Equispaced points on intervall [0, 2pi[""")],
    "a base of an even size of at least 32, and afterwards one of the next odd size, in the same process",
    "transform plans are cached under a key that does not tell apart two sizes, so that a base depends on which ones were made before",
    r'''
use funspace::fourier::FourierR2c;
use funspace::traits::BaseTransform;
use num_complex::Complex;
fn run(n: usize) -> bool {
    std::panic::catch_unwind(|| {
        let f = FourierR2c::<f64>::new(n);
        let mut c = vec![Complex::new(0.0, 0.0); n / 2 + 1];
        f.forward_slice(&vec![1.0; n], &mut c);
        (c[0].re - n as f64).abs() < 1e-9
    }).unwrap_or(false)
}
fn main() {
    assert!(run(34) && run(35) && run(34) && run(33) && run(32));
}''')

bug("c16-remainder-last", "C16",
    [("src/space_mpi/decomp2d/distribute.rs", "        for i in nl..nprocs {\n            st[i] = en[i - 1] + 1;\n            sz[i] = size;\n            en[i] = en[i - 1] + size;\n        }", "        for i in nl..nprocs {\n            // the last processors are one larger, as long as points are left\n            let size = if nu > 2 { size - 1 } else { size };\n            st[i] = en[i - 1] + 1;\n            sz[i] = size;\n            en[i] = en[i - 1] + size;\n        }")],
    "at least four processes and a remainder of at least three",
    "with larger remainders all surplus points go to the last process: a partition, but not a balanced one",
    r'''
use funspace::space_mpi::decomp2d::distribute::Distribution;
fn main() {
    for np in 1..9 {
        for n in np..40 {
            let d = Distribution::<2>::new([n, 50], np, 0, 1);
            let (a, b) = (d.sz_procs.iter().map(|s| s[0]).min().unwrap(), d.sz_procs.iter().map(|s| s[0]).max().unwrap());
            assert!(b - a <= 1, "{n} points over {np}: {a}..{b}");
        }
    }
}''', np=1)

bug("c17-merge-uniform", "C17",
    [("src/space_mpi/decomp2d/mod.rs", "            let i1 = self.y_pencil.st_procs[proc][0];\n            let i2 = self.y_pencil.en_procs[proc][0];\n            for j in 0..self.x_pencil.sz[1] {", "            let len = self.y_pencil.sz_procs[proc][0];\n            let i1 = proc * self.y_pencil.sz_procs[0][0];\n            let i2 = i1 + len - 1;\n            for j in 0..self.x_pencil.sz[1] {")],
    "at least three processes and a remainder of at least two along the first axis",
    "blocks received in the transposition from y to x pencils are placed as if all processes held equally much",
    r'''
use funspace::space_mpi::{initialize, Decomp2d};
use ndarray::Array2;
fn main() {
    let u = initialize().unwrap();
    for g in [[9usize, 6], [7, 5], [8, 4], [11, 9]] {
        let d = Decomp2d::new(&u, g);
        let all = Array2::from_shape_fn(g, |(i, j)| (i * 100 + j + 1) as f64);
        let y = d.split_array_y_pencil(&all);
        let mut x = Array2::<f64>::zeros(d.get_x_pencil_shape());
        d.transpose_y_to_x(&y, &mut x);
        assert!(x == d.split_array_x_pencil(&all), "{g:?}: {x}");
    }
}''', np=3)

bug("c18-gather-memory-order", "C18",
    [("src/space_mpi/decomp2d/mod.rs", """        check_shape(snd, self.y_pencil.sz);
        check_shape(rcv, self.n_global);
        // send & receive buffer
        let mut send = vec![T::zero(); self.y_pencil.length()];
        for (s, m) in send.iter_mut().zip(snd.iter()) {
            *s = *m;
        }
""", """        check_shape(snd, self.y_pencil.sz);
        check_shape(rcv, self.n_global);
        // send & receive buffer
        let send = match snd.as_slice_memory_order() {
            Some(data) => data.to_vec(),
            None => snd.iter().copied().collect(),
        };
""")],
    "all_gather_y of an array in column-major memory order",
    "cells of a column-major source are sent in memory order and end up in the wrong place",
    r'''
use funspace::space_mpi::{initialize, Decomp2d};
use ndarray::{Array2, ShapeBuilder};
fn main() {
    let u = initialize().unwrap();
    let g = [7usize, 5];
    let d = Decomp2d::new(&u, g);
    let all = Array2::from_shape_fn(g, |(i, j)| (i * 100 + j + 1) as f64);
    let y = d.split_array_y_pencil(&all);
    let mut f = Array2::<f64>::zeros((y.nrows(), y.ncols()).f());
    f.assign(&y);
    for a in [&y, &f] {
        let mut r = Array2::<f64>::zeros(g);
        d.all_gather_y(a, &mut r);
        assert!(r == all, "{r}");
    }
}''', np=2)

bug("c19-gradient-shortcut", "C19",
    [("src/space_mpi/space2.rs", """                // differentiate
                let work = {
                    let dcp = self.get_decomp_from_global_shape(&[
                        self.base0.len_orth(),
                        self.base1.len_spec(),
                    ]);
                    let mut buffer_ypen = Array2::zeros(dcp.y_pencil.sz);""",
      """                // no need to communicate without a derivative along the second axis
                if deriv[1] == 0 && scale.is_none() {
                    let grad = self.base0.gradient(input, deriv[0], 0);
                    let dcp = self.get_decomp_from_global_shape(&[
                        self.base0.len_orth(),
                        self.base1.len_orth(),
                    ]);
                    if grad.dim() == (dcp.x_pencil.sz[0], dcp.x_pencil.sz[1]) {
                        return grad;
                    }
                }
                // differentiate
                let work = {
                    let dcp = self.get_decomp_from_global_shape(&[
                        self.base0.len_orth(),
                        self.base1.len_spec(),
                    ]);
                    let mut buffer_ypen = Array2::zeros(dcp.y_pencil.sz);""")],
    "no derivative along a composite second axis, and processes whose share happens to be equally large before and after the change of base",
    "the distributed gradient returns composite instead of orthogonal coefficients along the second axis on some processes",
    r'''
use funspace::{cheb_dirichlet, chebyshev, BaseSpaceGradient};
use funspace::space_mpi::{initialize, BaseSpaceMpi, Space2Mpi, Communicator};
use ndarray::Array2;
fn main() {
    let u = initialize().unwrap();
    let np = u.world().size() as usize;
    let n1 = 8;
    let s = Space2Mpi::new(&chebyshev::<f64>(6), &cheb_dirichlet::<f64>(n1), &u);
    let all = Array2::from_shape_fn((6, n1 - 2), |(i, j)| (i * 10 + j * j + 1) as f64);
    let want: Array2<f64> = s.gradient(&all, [1, 0], None);
    let d = s.get_decomp_from_global_shape(&[6, n1 - 2]);
    let x = d.split_array_x_pencil(&all);
    let got = s.gradient_mpi(&x, [1, 0], None);
    let d = s.get_decomp_from_global_shape(&[6, n1]);
    let w = d.split_array_x_pencil(&want);
    assert!(np > 0 && got.iter().zip(w.iter()).all(|(a, b)| (a - b).abs() < 1e-9), "{got} {w}");
}''', np=4)

bug("c20-tree-sum", "C20",
    [("src/space_mpi/decomp2d/functions.rs", "    world.all_gather_into(data, &mut a[..]);\n    *result = a.iter().copied().sum();", """    world.all_gather_into(data, &mut a[..]);
    // add pairwise, which is more accurate
    let mut stride = 1;
    while stride <= size / 2 {
        for i in (0..size - stride).step_by(2 * stride) {
            a[i] = a[i] + a[i + stride];
        }
        stride *= 2;
    }
    *result = a[0];""")],
    "a number of processes that is not a power of two",
    "the sum over all processes forgets some of them",
    r'''
use funspace::space_mpi::{initialize, all_gather_sum, Communicator};
fn main() {
    let u = initialize().unwrap();
    let (r, n) = (u.world().rank() as f64, u.world().size() as f64);
    let mut s = 0.0;
    all_gather_sum(&u, &(r + 1.0), &mut s);
    assert_eq!(s, n * (n + 1.0) / 2.0);
}''', np=3)

bug("c21-nan-accepted", "C21",
    [("src/utils.rs", """    let tol = A::from_f64(1e-3).unwrap();
    for (a, b) in expected.iter().zip(result.iter()) {
        assert!(
            ((*a - *b).abs() < tol),""", """    let tol = A::from_f64(1e-3).unwrap();
    for (a, b) in expected.iter().zip(result.iter()) {
        assert!(
            !((*a - *b).abs() >= tol),""")],
    "an entry that is not a number",
    "the comparison of real arrays accepts entries that are not comparable",
    r'''
use funspace::utils::approx_eq_ndarray;
use ndarray::array;
fn main() {
    let r = std::panic::catch_unwind(|| approx_eq_ndarray(&array![1.0, f64::NAN], &array![1.0, 2.0]));
    assert!(r.is_err());
}''')

bug("c22-space3-ortho-shape", "C22",
    [("src/space/space3.rs", "                    self.base1.len_orth(),", "                    self.base1.len_spec(),")],
    "a three-dimensional space with a composite base along the middle axis",
    "the reported orthogonal shape is too small along the middle axis",
    r'''
use funspace::{cheb_dirichlet, chebyshev, fourier_r2c, Space3, BaseSpaceSize};
fn main() {
    let s = Space3::new(&fourier_r2c::<f64>(8), &cheb_dirichlet::<f64>(7), &chebyshev::<f64>(6));
    assert_eq!(s.shape_spectral_ortho(), [5, 7, 6]);
}''')

bug("c23-shape-by-length", "C23",
    [("src/space_mpi/decomp2d/mod.rs", "    if data.shape() != shape {\n        panic!(", "    if data.len() != shape.iter().product::<usize>() {\n        panic!(")],
    "an array with the right number of cells but another shape",
    "arrays of the right length and the wrong shape are accepted by the distributed calls",
    r'''
use funspace::space_mpi::{initialize, Decomp2d};
use ndarray::Array2;
fn main() {
    let u = initialize().unwrap();
    let d = Decomp2d::new(&u, [4, 6]);
    let [a, b] = d.get_y_pencil_shape();
    let bad = Array2::<f64>::zeros((b, a));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut out = Array2::<f64>::zeros([4, 6]);
        d.all_gather_y(&bad, &mut out);
    }));
    assert!(r.is_err(), "accepted {:?} for {:?}", [b, a], [a, b]);
}''', np=2)
