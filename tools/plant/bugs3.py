BUGS = []
def bug(id, prop, edits, needs, breaks, demo, **kw):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

ORTHO = "src/chebyshev/ortho.rs"
R2C = "src/fourier/r2c.rs"
C2C = "src/fourier/c2c.rs"
HELP = "src/chebyshev/stencils/helpers.rs"

bug("c14-lane-zip", "C14",
    [("src/internal_macros.rs", ("""                Zip::from(indata.lanes(Axis(axis)))
                    .and(outdata.lanes_mut(Axis(axis)))
                    .for_each(|x, mut y| {
                        self.$f(&x.to_vec(), &mut scratch);
                        for (yi, si) in y.iter_mut().zip(scratch.iter()) {
                            *yi = *si;
                        }
                    });""", 0),
      """                let lanes = indata.lanes(Axis(axis)).into_iter();
                for (x, mut y) in lanes.zip(outdata.lanes_mut(Axis(axis))) {
                    self.$f(&x.to_vec(), &mut scratch);
                    for (yi, si) in y.iter_mut().zip(scratch.iter()) {
                        *yi = *si;
                    }
                }""")],
    "a serial in-place call along an inner axis whose output differs from the input in the extent of another axis",
    "lanes are paired until one side runs out, so arrays that do not fit across the axis are accepted",
    r'''
use funspace::chebyshev::Chebyshev;
use funspace::traits::BaseTransform;
use ndarray::Array2;
fn main() {
    let b = Chebyshev::<f64>::new(6);
    let x = Array2::<f64>::ones((6, 3));
    let mut y = Array2::<f64>::zeros((6, 3));
    b.forward_inplace(&x, &mut y, 0);
    assert!((y[[0, 2]] - 1.0).abs() < 1e-12);
    for k in [2usize, 4] {
        let r = std::panic::catch_unwind(|| {
            let b = Chebyshev::<f64>::new(6);
            let x = Array2::<f64>::ones((6, 3));
            let mut y = Array2::<f64>::zeros((6, k));
            b.forward_inplace(&x, &mut y, 0);
        });
        assert!(r.is_err(), "an output of {k} columns was accepted for an input of 3");
    }
}''')

bug("c15-last-result", "C15",
    [(R2C, """        // Copy - indata must be mutable for realfft
        let mut indata_mut = vec![Self::Physical::zero(); indata.len()];
        for (a, b) in indata_mut.iter_mut().zip(indata.iter()) {
            *a = *b;
        }
        self.plan_fwd.process(&mut indata_mut, outdata).unwrap();
""", """        // Time steppers often transform the same field again, keep the last one
        thread_local! {
            static LAST: std::cell::RefCell<(Vec<[u64; 2]>, Vec<[f64; 2]>)> =
                std::cell::RefCell::new((Vec::new(), Vec::new()));
        }
        let step = indata.len() / 16 + 1;
        let mut key: Vec<[u64; 2]> = vec![[indata.len() as u64, std::mem::size_of::<A>() as u64]];
        key.extend(
            indata
                .iter()
                .enumerate()
                .step_by(step)
                .map(|(i, x)| [i as u64, x.to_f64().unwrap().to_bits()]),
        );
        let known = LAST.with(|l| {
            let l = l.borrow();
            if l.0 == key {
                for (y, v) in outdata.iter_mut().zip(l.1.iter()) {
                    *y = Complex::new(A::from_f64(v[0]).unwrap(), A::from_f64(v[1]).unwrap());
                }
            }
            l.0 == key
        });
        if known {
            return;
        }
        // Copy - indata must be mutable for realfft
        let mut indata_mut = vec![Self::Physical::zero(); indata.len()];
        for (a, b) in indata_mut.iter_mut().zip(indata.iter()) {
            *a = *b;
        }
        self.plan_fwd.process(&mut indata_mut, outdata).unwrap();
        LAST.with(|l| {
            let values = outdata
                .iter()
                .map(|y| [y.re.to_f64().unwrap(), y.im.to_f64().unwrap()])
                .collect();
            *l.borrow_mut() = (key, values);
        });
""")],
    "two successive transforms of fields with more than 16 points which agree at every second (third ...) point",
    "a transform returns the result of the previous call if a sample of the input's entries is the same",
    r'''
use funspace::fourier::FourierR2c;
use funspace::traits::BaseTransform;
use num_complex::Complex;
fn main() {
    let n = 40;
    let b = FourierR2c::<f64>::new(n);
    let mut x: Vec<f64> = (0..n).map(|i| (i as f64 * 0.7).sin()).collect();
    let mut y0 = vec![Complex::new(0.0, 0.0); n / 2 + 1];
    b.forward_slice(&x, &mut y0);
    let mut worst: f64 = 0.0;
    for i in 0..n {
        x[i] += 1.0 + i as f64;
        let mut y = y0.clone();
        b.forward_slice(&x, &mut y);
        worst = worst.max(((y[0] - y0[0]).re - 1.0 - i as f64).abs());
        x[i] -= 1.0 + i as f64;
    }
    assert!(worst < 1e-9, "the mean did not follow the input: {worst}");
}''')

bug("c04-pinv-band", "C04",
    [(HELP, """                for j in (0..i - 1).rev().step_by(2) {
                    pinv[[i, j]] = -A::one() * (pinv[[i, j + 2]] * self.low2[j]) / self.diag[j];
                }""",
      """                // far from the diagonal the entries have decayed
                for j in (0..i - 1).rev().step_by(2).take(48) {
                    pinv[[i, j]] = -A::one() * (pinv[[i, j + 2]] * self.low2[j]) / self.diag[j];
                }""")],
    "a Dirichlet or Neumann base with more than about a hundred points",
    "the inverse stencil matrix is cut off 96 columns left of the diagonal",
    r'''
use funspace::chebyshev::ChebyshevComposite;
use funspace::traits::BaseMatOpStencil;
fn main() {
    for n in [20usize, 60, 140] {
        for b in [ChebyshevComposite::<f64>::dirichlet(n), ChebyshevComposite::<f64>::neumann(n)] {
            let one = b.stencil_inv().dot(&b.stencil());
            for ((i, j), v) in one.indexed_iter() {
                let want = if i == j { 1.0 } else { 0.0 };
                assert!((v - want).abs() < 1e-9, "n={n} [{i},{j}] {v}");
            }
        }
    }
}''')

bug("c12-same-length", "C12",
    [("src/space/space2.rs", """            fn coords_axis(&self, axis: usize) -> Array1<A> {
                if axis == 0 {""",
      """            fn coords_axis(&self, axis: usize) -> Array1<A> {
                // same grid along both axes
                if axis == 0 || self.base0.len_phys() == self.base1.len_phys() {""")],
    "a two-dimensional space of a Fourier and a Chebyshev base with the same number of points",
    "the coordinates along the second axis are those of the first if both have the same length",
    r'''
use funspace::{chebyshev, fourier_r2c, BaseSpaceElements, Space2};
fn main() {
    for (n, m) in [(8usize, 9usize), (8, 8)] {
        let s = Space2::new(&fourier_r2c::<f64>(n), &chebyshev::<f64>(m));
        let x = s.coords_axis(1);
        assert!((x[0] + 1.0).abs() < 1e-12 && (x[m - 1] - 1.0).abs() < 1e-12, "{n} {m}: {x}");
        assert!(s.coords()[0][0].abs() < 1e-12);
    }
}''')

bug("c22-space3-kind", "C22",
    [("src/space/space3.rs", """                if axis == 0 {
                    self.base0.transform_kind()
                } else if axis == 1 {
                    self.base1.transform_kind()
                } else {
                    self.base2.transform_kind()
                }""",
      """                match (axis, self.base1.transform_kind()) {
                    (0, _) => self.base0.transform_kind(),
                    // complex already
                    (_, TransformKind::C2c) => TransformKind::C2c,
                    (1, kind) => kind,
                    _ => self.base2.transform_kind(),
                }""")],
    "a three-dimensional space whose last base is real-to-complex",
    "the kind of the third transform is reported as complex-to-complex",
    r'''
use funspace::enums::TransformKind;
use funspace::{fourier_c2c, fourier_r2c, BaseSpaceElements, Space3};
fn main() {
    let s = Space3::new(&fourier_c2c::<f64>(6), &fourier_c2c::<f64>(4), &fourier_r2c::<f64>(8));
    assert!(matches!(s.transform_kind(0), TransformKind::C2c));
    assert!(matches!(s.transform_kind(1), TransformKind::C2c));
    assert!(matches!(s.transform_kind(2), TransformKind::R2c));
}''')

bug("c19-narrow-lookup", "C19",
    [("src/space_mpi/decomp_handler.rs", "    map_shape_global: HashMap<[usize; 2], usize>,\n}",
      "    map_shape_global: HashMap<[u8; 2], usize>,\n}"),
     ("src/space_mpi/decomp_handler.rs", "        let map_shape_global: HashMap<[usize; 2], usize> = HashMap::new();",
      "        let map_shape_global: HashMap<[u8; 2], usize> = HashMap::new();"),
     ("src/space_mpi/decomp_handler.rs", "        let shape_global = decomp.get_global_shape();\n        self.map_shape_global.entry(shape_global)",
      "        let shape_global = decomp.get_global_shape();\n        let key = [shape_global[0] as u8, shape_global[1] as u8];\n        self.map_shape_global.entry(key)"),
     ("src/space_mpi/decomp_handler.rs", "        let lookup_val = self.map_shape_global.get(shape).unwrap();",
      "        let lookup_val = self.map_shape_global.get(&[shape[0] as u8, shape[1] as u8]).unwrap();")],
    "a distributed space with a real Fourier base of 513 or 514 points, whose two lengths agree in their lowest eight bits",
    "decompositions are found by the low bytes of the shape, so the physical representation is given the spectral decomposition (or the other way round)",
    r'''
use funspace::space_mpi::{initialize, BaseSpaceMpi, Space2Mpi};
use funspace::{cheb_dirichlet, fourier_r2c, BaseSpaceSize};
fn main() {
    let u = initialize().unwrap();
    for n in [8usize, 64, 512, 513, 514, 515] {
        let s = Space2Mpi::new(&fourier_r2c::<f64>(n), &cheb_dirichlet::<f64>(9), &u);
        assert_eq!(s.shape_physical(), [n, 9]);
        for shape in [[n, 9], [n / 2 + 1, 9], [n / 2 + 1, 7]] {
            assert_eq!(s.get_decomp_from_global_shape(&shape).get_global_shape(), shape);
        }
    }
}''', np=2)

bug("c03-negligible-entries", "C03",
    [("src/chebyshev/stencils.rs", """            *v2 = A::from_f64(
                (-1. * kf64.powi(2) - (kf64 + 1.).powi(2))
                    / ((kf64 + 1.).powi(2) + (kf64 + 2.).powi(2)),
            )
            .unwrap();
""", """            *v2 = A::from_f64(
                (-1. * kf64.powi(2) - (kf64 + 1.).powi(2))
                    / ((kf64 + 1.).powi(2) + (kf64 + 2.).powi(2)),
            )
            .unwrap();
            // negligible
            if v1.abs() < A::from_f64(1e-3).unwrap() {
                *v1 = A::zero();
            }
""")],
    "a base with mixed conditions and more than two thousand points",
    "small stencil entries are dropped, so high modes violate both conditions",
    r'''
use funspace::chebyshev::ChebyshevComposite;
use funspace::traits::BaseFromOrtho;
fn main() {
    for n in [50usize, 1000, 4000] {
        let b = ChebyshevComposite::<f64>::dirichlet_neumann(n);
        let v: Vec<f64> = (0..n - 2).map(|i| if i % 3 == 1 { 1.0 } else { 0.0 }).collect();
        let mut u = vec![0.0; n];
        b.to_ortho_slice(&v, &mut u);
        let left: f64 = u.iter().enumerate().map(|(k, c)| if k % 2 == 0 { *c } else { -*c }).sum();
        assert!(left.abs() < 1e-9, "n={n}: u(-1) = {left}");
    }
}''')

bug("c06-c2c-laplacian-nyquist", "C06",
    [(C2C, """        let wavenum = Self::wavenumber(self.len_phys());
        let mut lap = Array2::<A>::zeros((self.m, self.m));
        for (l, k) in lap.diag_mut().iter_mut().zip(wavenum.iter()) {
            *l = -k.im * k.im;
        }
        lap""", """        // waves come in pairs
        let mut lap = Array2::<A>::zeros((self.m, self.m));
        for k in 1..(self.m + 1) / 2 {
            let square = -A::from_usize(k * k).unwrap();
            lap[[k, k]] = square;
            lap[[self.m - k, self.m - k]] = square;
        }
        lap""")],
    "the explicit Laplacian of a complex Fourier base of even size, at its highest mode",
    "the unpaired highest mode is left out of the Laplacian matrix (and becomes infinite in its pseudoinverse)",
    r'''
use funspace::fourier::FourierC2c;
use funspace::traits::BaseMatOpLaplacian;
fn main() {
    for n in [5usize, 6, 7, 8] {
        let l = FourierC2c::<f64>::new(n).laplacian();
        for k in 0..n {
            let w = if 2 * k < n { k as f64 } else { k as f64 - n as f64 };
            assert!((l[[k, k]] + w * w).abs() < 1e-12, "n={n} k={k}: {}", l[[k, k]]);
        }
    }
}''')

bug("c08-repeat-lane", "C08",
    [("src/traits.rs", """            let mut scratch: Vec<T> = vec![T::zero(); outdata.shape()[axis]];
            Zip::from(indata.lanes(Axis(axis)))
                .and(outdata.lanes_mut(Axis(axis)))
                .for_each(|x, mut y| {
                    self.gradient_slice(&x.to_vec(), &mut scratch, n_times);
""", """            let mut scratch: Vec<T> = vec![T::zero(); outdata.shape()[axis]];
            let mut last: Option<usize> = None;
            Zip::from(indata.lanes(Axis(axis)))
                .and(outdata.lanes_mut(Axis(axis)))
                .for_each(|x, mut y| {
                    // Zero lanes are common in filtered fields, differentiate only one of them
                    let zeros = x.iter().take_while(|v| v.is_zero()).count();
                    if last.map_or(true, |z| z != zeros || zeros < 2) {
                        self.gradient_slice(&x.to_vec(), &mut scratch, n_times);
                    }
                    last = Some(zeros);
""")],
    "differentiation along an inner axis of coefficients of which two neighbouring lanes begin with the same number (at least two) of zeros",
    "a lane that begins with as many zeros as its predecessor gets the predecessor's derivative",
    r'''
use funspace::chebyshev::Chebyshev;
use funspace::traits::BaseGradient;
use ndarray::Array2;
fn main() {
    let b = Chebyshev::<f64>::new(6);
    let mut x = Array2::<f64>::zeros((6, 3));
    for j in 0..3 {
        x[[2, j]] = 1.0 + j as f64;
        x[[5, j]] = 0.5;
    }
    let g = b.gradient(&x, 1, 0);
    for j in 0..3 {
        let mut y = vec![0.0; 6];
        b.gradient_slice(&x.column(j).to_vec(), &mut y, 1);
        for i in 0..6 {
            assert!((g[[i, j]] - y[i]).abs() < 1e-12, "[{i},{j}] {} {}", g[[i, j]], y[i]);
        }
    }
}''')

bug("c10-pdma-assert", "C10",
    [("src/chebyshev/linalg/pdma.rs", ("""    assert!(n > 3, "Error in pdma: Size = {} too small!", n);

    let mut al""", 0), """    assert!(n > 2, "Error in pdma: Size = {} too small!", n);

    let mut al""")],
    "a base with mixed conditions and five points in a release build",
    "the pentadiagonal solver accepts three unknowns and reads in front of its tables",
    r'''
use funspace::chebyshev::ChebyshevComposite;
use funspace::traits::BaseFromOrtho;
fn main() {
    let r = std::panic::catch_unwind(|| {
        let b = ChebyshevComposite::<f64>::dirichlet_neumann(5);
        let u = vec![1.0; 5];
        let mut v = vec![0.0; 3];
        b.from_ortho_slice(&u, &mut v);
        v
    });
    assert!(r.is_err(), "served by reading outside of the tables: {:?}", r);
}''', prof="debug-assertions = false\noverflow-checks = false")

bug("c13-overflow-guard", "C13",
    [(ORTHO, """            if i % 2 == 0 {
                *y = *x;
            } else {
                *y = *x * -A::one();
            }""", """            // Guard against overflow in the transform
            let x = x.max(A::from_f64(-1e30).unwrap()).min(A::from_f64(1e30).unwrap());
            if i % 2 == 0 {
                *y = x;
            } else {
                *y = x * -A::one();
            }""")],
    "coefficients beyond 1e30 in modulus",
    "large coefficients are clamped in the backward transform, which is then no longer linear",
    r'''
use funspace::chebyshev::Chebyshev;
use funspace::traits::BaseTransform;
fn main() {
    let n = 6;
    let b = Chebyshev::<f64>::new(n);
    let c: Vec<f64> = (0..n).map(|i| 1.0 / (1.0 + i as f64)).collect();
    let mut y = vec![0.0; n];
    b.backward_slice(&c, &mut y);
    for s in [1e6, 1e40] {
        let d: Vec<f64> = c.iter().map(|x| s * x).collect();
        let mut z = vec![0.0; n];
        b.backward_slice(&d, &mut z);
        for i in 0..n {
            assert!((z[i] - s * y[i]).abs() < 1e-12 * s * 10.0, "scale {s}: {} {}", z[i], s * y[i]);
        }
    }
}''')

bug("c16-float-split", "C16",
    [("src/space_mpi/decomp2d/distribute.rs", """        // Distribute the rest if necessary
        let nu = n_global - size * nprocs;""",
      """        // Distribute the rest if necessary
        let nu = ((n_global as f32 / nprocs as f32).fract() * nprocs as f32).round() as usize;""")],
    "a share of hundreds of thousands of points for each of many processes, so that the fraction of a single-precision quotient is inexact",
    "the number of processes with one point more is computed in single precision: pieces overlap, or the last one is much larger or smaller",
    r'''
use funspace::space_mpi::decomp2d::Distribution;
fn main() {
    for (n, p) in [(10usize, 3usize), (1000, 7), (1_000_003, 13), (20_000_001, 48), (33_333_333, 100)] {
        let d: Vec<_> = (0..p).map(|r| Distribution::<2>::new([n, 4], p, r, 1)).collect();
        let mut next = 0;
        for q in &d {
            assert_eq!(q.st[0], next, "{n} on {p}");
            assert!(q.sz[0] == n / p || q.sz[0] == n / p + 1, "{n} on {p}: a piece of {}", q.sz[0]);
            next = q.en[0] + 1;
        }
        assert_eq!(next, n);
    }
}''', np=1)

bug("c18-uniform-guess", "C18",
    [("src/space_mpi/decomp2d/distribute.rs", """            .map(|x| (x.iter().product::<usize>()) as i32)
            .collect();""", """            .map(|x| (x.iter().product::<usize>()) as i32)
            .collect();
        // Equal pieces need no table
        if self.nprocs > 3 && counts[0] == counts[self.nprocs - 2] {
            let each = self.length() as i32;
            let displs = (0..self.nprocs as i32).map(|p| p * counts[0]).collect();
            let counts = counts.iter().map(|c| each.min(*c)).collect();
            return (counts, displs);
        }""")],
    "four or more processes of which only the last has one row more, and the root's piece being a smaller one",
    "the last row of the last process is not collected: the pieces are taken for equal if the first and the last but one are",
    r'''
use funspace::space_mpi::decomp2d::Decomp2d;
use funspace::space_mpi::initialize;
use ndarray::{s, Array2};
fn main() {
    let u = initialize().unwrap();
    for n in [8usize, 10, 9] {
        let d = Decomp2d::new(&u, [n, 5]);
        let g = Array2::<f64>::from_shape_fn((n, 5), |(i, j)| 1.0 + (i * 5 + j) as f64);
        let y = g.slice(s![d.y_pencil.st[0]..=d.y_pencil.en[0], ..]).to_owned();
        if d.nrank == 0 {
            let r: Array2<f64> = d.gather_y_root(&y);
            assert_eq!(r, g);
        } else {
            d.gather_y(&y);
        }
    }
}''', np=4)

bug("c21-relative", "C21",
    [("src/utils.rs", ("""    for (a, b) in vec_a.iter().zip(vec_b.iter()) {
        assert!(
            ((*a - *b).abs() < tol),""", 0), """    // Scale with the largest entry
    let size = vec_a.iter().fold(A::one(), |m, a| m.max(a.abs()));
    let tol = tol * size;
    for (a, b) in vec_a.iter().zip(vec_b.iter()) {
        assert!(
            ((*a - *b).abs() < tol),""")],
    "a vector with one large entry and a clear difference at a small one",
    "the tolerance grows with the largest entry anywhere in the vector",
    r'''
use funspace::utils::approx_eq;
fn main() {
    approx_eq(&[1.0f64, 2.0, 3.0], &[1.0, 2.0, 3.0]);
    approx_eq(&[1.0f64, 5000.0], &[1.0, 5000.0]);
    let r = std::panic::catch_unwind(|| approx_eq(&[1.0f64, 5000.0], &[2.0, 5000.0]));
    assert!(r.is_err(), "1 and 2 are taken for equal beside 5000");
}''')

bug("c23-single-process", "C23",
    [("src/space_mpi/decomp2d/mod.rs", ("""        // gather
        if self.nrank == root_rank {
            panic!("Rank must not be root!");
        } else {
            root_process.gather_varcount_into(&send[..]);
        }""", 0), """        // nothing to do on a single process
        if self.nprocs == 1 {
            return;
        }
        // gather
        if self.nrank == root_rank {
            panic!("Rank must not be root!");
        } else {
            root_process.gather_varcount_into(&send[..]);
        }""")],
    "a run with a single process in which the root makes the call meant for the others",
    "a call in the wrong role silently does nothing instead of being refused",
    r'''
use funspace::space_mpi::decomp2d::Decomp2d;
use funspace::space_mpi::initialize;
use ndarray::Array2;
fn main() {
    let u = initialize().unwrap();
    let d = Decomp2d::new(&u, [6, 5]);
    let x = Array2::<f64>::zeros(d.x_pencil.sz);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| d.gather_x(&x)));
    assert!(r.is_err(), "the root was served as if it were not the root");
}''', np=1)
