//! C05 (gradient) and C06 (explicit differentiation matrices).
use fsmon::ctx::Ctx;
use fsmon::nd::{AnyBase, Base1, Make, Spec, ROUTES, ROUTE_NAMES};
use fsmon::gen::{huge, sizes, vec_of, Rng, STYLES};
use fsmon::num::{to_c, Real, Scal, C};
use fsmon::oracle::{self, abs_c, cols_abs, mul_iw, stencil_apply, stencil_cols, wavenumber_c2c, Acc, Kind};
use fsmon::on_base;
use ndarray::Array2;
use num_complex::Complex;

use crate::p_compo::cmp_comp;

fn fourier_w(kind: Kind, k: usize, n: usize) -> f64 {
    if kind == Kind::R2c {
        k as f64
    } else {
        wavenumber_c2c(k, n)
    }
}

fn c05_r2r<A: Real, T: Scal>(ctx: &mut Ctx, b: &Spec<T>, kind: Kind, n: usize, d: usize, style: usize, seed: u64) {
    let mut rng = Rng::new(seed);
    let (r, salt) = (rng.below(ROUTES), rng.below(1000));
    let v: Vec<T> = vec_of(&mut rng, b.to.nin, style, A::EMAX.min(9));
    let cols = stencil_cols(kind, n);
    let want = oracle::cheb_deriv_n(&stencil_apply(&cols, n, &to_c(&v)), d);
    let tol = oracle::cheb_deriv_n(&stencil_apply(&cols_abs(&cols), n, &abs_c(&to_c(&v))), d);
    let got = to_c(&b.grad.times(d).route(&v, r, salt));
    cmp_comp(ctx, &got, &want, &tol, A::EPS * (64. + 4. * n as f64 * d as f64), A::EPS, &format!("gradient({d}) via {}", ROUTE_NAMES[r]));
    ctx.seen(&format!("{kind:?} n={n} d={d} {} {} {}", T::NAME, STYLES[style], ROUTE_NAMES[r]));
}

fn c05_fourier<A: Real>(ctx: &mut Ctx, b: &Spec<Complex<A>>, kind: Kind, n: usize, d: usize, style: usize, seed: u64)
where
    Complex<A>: Scal,
{
    let mut rng = Rng::new(seed);
    let (r, salt) = (rng.below(ROUTES), rng.below(1000));
    let v: Vec<Complex<A>> = vec_of(&mut rng, b.to.nin, style, A::EMAX.min(9));
    let vc = to_c(&v);
    let want: Vec<C> = vc.iter().enumerate().map(|(k, z)| mul_iw(*z, fourier_w(kind, k, n), d)).collect();
    let tol: Vec<C> = want
        .iter()
        .map(|z| {
            let m = z.re.abs() + z.im.abs();
            C::new(m, m)
        })
        .collect();
    let got = to_c(&b.grad.times(d).route(&v, r, salt));
    cmp_comp(ctx, &got, &want, &tol, A::EPS * (16. + 8. * d as f64), A::EPS, &format!("gradient({d}) via {}", ROUTE_NAMES[r]));
    ctx.seen(&format!("{kind:?} n={n} d={d} {} {} {}", <A as Scal>::NAME, STYLES[style], ROUTE_NAMES[r]));
}

fn c05_base<A: Real>(ctx: &mut Ctx, kind: Kind, n: usize, d: usize, style: usize, seed: u64)
where
    Complex<A>: Scal,
{
    let make = if seed & 4 == 0 { Make::Wrapper } else { Make::Struct };
    match A::base(kind, n, make) {
        AnyBase::R(b) if seed & 2 == 0 => c05_r2r::<A, A>(ctx, &b.sp, kind, n, d, style, seed),
        AnyBase::R(b) => c05_r2r::<A, Complex<A>>(ctx, b.cx.as_ref().unwrap(), kind, n, d, style, seed),
        AnyBase::H(b) => c05_fourier::<A>(ctx, &b.sp, kind, n, d, style, seed),
        AnyBase::Z(b) => c05_fourier::<A>(ctx, &b.sp, kind, n, d, style, seed),
    }
}

fn c05_type<A: Real>(ctx: &mut Ctx)
where
    Complex<A>: Scal,
{
    let mut rng = Rng::new(ctx.seed);
    for n in huge(&mut rng, ctx.thorough()) {
        for kind in Kind::ALL {
            let (style, d) = (rng.below(STYLES.len()), rng.range(1, if A::EPS > 1e-10 { 2 } else { 3 }));
            if let Some(seed) = ctx.begin(&format!("C05 {kind:?} {} n={n} d={d} style={} large", <A as Scal>::NAME, STYLES[style])) {
                c05_base::<A>(ctx, kind, n, d, style, seed);
            }
        }
    }
    let (dense, max, extra, reps) = if ctx.thorough() { (1100, 16385, 200, 24) } else { (600, 4097, 40, 10) };
    for kind in Kind::ALL {
        let max = if kind.bcs().is_empty() { max } else { max.min(4097) };
        for n in sizes(&mut rng, kind.min_n(), dense, max, extra) {
            let reps = if n <= 64 { 2 * reps } else { reps };
            for rep in 0..reps {
                let style = (rng.below(STYLES.len()) + rep) % STYLES.len();
                let dmax = if n > 1100 && A::EPS > 1e-10 { 3 } else { 6 };
                let d = if rep < 3 { rep } else { rng.range(0, dmax) };
                if let Some(seed) = ctx.begin(&format!("C05 {kind:?} {} n={n} d={d} style={} rep={rep}", <A as Scal>::NAME, STYLES[style])) {
                    c05_base::<A>(ctx, kind, n, d, style, seed);
                }
                if ctx.out_of_time() {
                    return;
                }
            }
        }
    }
}

/// End to end: sample a known function, transform, differentiate, transform
/// back, compare with the analytic derivative.
fn physical<P: Scal, S: Scal>(ctx: &mut Ctx, b: &Base1<f64, P, S>, kind: Kind, n: usize, seed: u64) {
    let x = b.el.coords();
    let mut rng = Rng::new(seed);
    for d in 0..=3usize {
        // (function value, d-th derivative value, magnitude)
        let wmax = (n.max(2) - 1) / 2;
        let w = rng.range(0, wmax) as f64 * if kind == Kind::C2c && rng.coin() { -1. } else { 1. };
        let a = 0.5 + rng.unit();
        let f = |x: f64, d: usize| -> (f64, f64) {
            match kind {
                Kind::Cheb => (a.powi(d as i32) * (a * x).exp(), 0.),
                Kind::R2c => {
                    let z = mul_iw(C::new((w * x).cos(), (w * x).sin()), w, d);
                    (z.re - z.im, 0.)
                }
                _ => {
                    let z = mul_iw(C::new((w * x).cos(), (w * x).sin()), w, d);
                    (z.re, z.im)
                }
            }
        };
        let v: Vec<P> = x.iter().map(|x| { let z = f(*x, 0); P::make(z.0, z.1) }).collect();
        let h = b.fwd.route(&v, rng.below(ROUTES), 3);
        let g = b.sp.grad.times(d).route(&h, rng.below(ROUTES), 5);
        let y = to_c(&b.bwd.route(&g, rng.below(ROUTES), 7));
        let want: Vec<C> = x.iter().map(|x| { let z = f(*x, d); C::new(z.0, z.1) }).collect();
        let tol = if kind == Kind::Cheb {
            1e-13 * (n as f64).powi(2 * d as i32 + 1)
        } else {
            1e-12 * (n as f64 + 1.) * (n as f64).powi(d as i32)
        };
        crate::p_transform::cmp(ctx, &y, &want, tol.max(1e-11), &format!("derivative {d} of a known function (w={w}, a={a})"));
        ctx.seen(&format!("physical {kind:?} n={n} d={d} w={w}"));
    }
}

pub fn c05(ctx: &mut Ctx) {
    c05_type::<f64>(ctx);
    c05_type::<f32>(ctx);
    for n in 1..=(if ctx.thorough() { 130 } else { 64 }) {
        for kind in [Kind::Cheb, Kind::R2c, Kind::C2c] {
            if kind == Kind::Cheb && n < 20 {
                continue;
            }
            for rep in 0..3 {
                if let Some(seed) = ctx.begin(&format!("C05 physical {kind:?} n={n} rep={rep}")) {
                    on_base!(&f64::base(kind, n, Make::Wrapper), |b| physical(ctx, b, kind, n, seed));
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C06

/// Reference differentiation matrix (exact up to f64 rounding)
fn ref_dmat(kind: Kind, n: usize, d: usize) -> Array2<C> {
    let m = kind.len_orth(n);
    let mut a = Array2::from_elem((m, m), C::new(0., 0.));
    for q in 0..m {
        if matches!(kind, Kind::R2c | Kind::C2c) {
            a[[q, q]] = mul_iw(C::new(1., 0.), fourier_w(kind, q, n), d);
        } else {
            let mut e = vec![C::new(0., 0.); m];
            e[q] = C::new(1., 0.);
            for (p, v) in oracle::cheb_deriv_n(&e, d).iter().enumerate() {
                a[[p, q]] = *v;
            }
        }
    }
    a
}

/// Reference pseudoinverse: entries (i >= d, j < n-d) of the d-fold
/// integration operator, together with their magnitude of cancellation.
fn ref_pinv(n: usize, d: usize) -> (Array2<f64>, Array2<f64>) {
    let big = n + 2 * d + 2;
    let mut bm = Array2::<f64>::zeros((big, big));
    for i in 1..big {
        bm[[i, i - 1]] = if i == 1 { 1. } else { 1. / (2. * i as f64) };
        if i + 1 < big {
            bm[[i, i + 1]] = -1. / (2. * i as f64);
        }
    }
    let ba = bm.mapv(f64::abs);
    let (mut p, mut a) = (bm.clone(), ba.clone());
    // banded product
    for _ in 1..d {
        let mul = |x: &Array2<f64>, y: &Array2<f64>| {
            let mut z = Array2::<f64>::zeros((big, big));
            for i in 0..big {
                for k in [i.wrapping_sub(1), i + 1] {
                    if k < big {
                        let w = x[[i, k]];
                        for j in 0..big {
                            z[[i, j]] += w * y[[k, j]];
                        }
                    }
                }
            }
            z
        };
        p = mul(&bm, &p);
        a = mul(&ba, &a);
    }
    (p, a)
}

fn check_matrix<T: Scal>(ctx: &Ctx, got: &Array2<T>, want: &Array2<C>, eps: f64, what: &str) {
    ctx.check(got.shape() == want.shape(), || format!("{what}: shape {:?} expected {:?}", got.shape(), want.shape()));
    for ((i, j), g) in got.indexed_iter() {
        let w = want[[i, j]];
        let (a, b) = g.parts();
        let m = w.re.abs() + w.im.abs();
        ctx.check((a - w.re).abs() <= eps * m && (b - w.im).abs() <= eps * m, || format!("{what}[{i},{j}] = {a:e}+{b:e}i expected {w:e}"));
    }
}

/// (D_pinv @ D) restricted to the rows kept by I_pinv equals I_pinv
fn check_pinv<T: Scal>(ctx: &Ctx, p: &Array2<T>, i: &Array2<T>, dref: &Array2<C>, skip: usize, fac: f64, what: &str) {
    let m = dref.nrows();
    ctx.check(p.shape() == [m, m], || format!("{what}: pseudoinverse has shape {:?}", p.shape()));
    let rows = m.saturating_sub(skip);
    ctx.check(i.shape() == [rows, m], || format!("{what}: pseudoidentity has shape {:?} expected [{rows}, {m}]", i.shape()));
    for r in 0..rows {
        for c in 0..m {
            let (a, b) = i[[r, c]].parts();
            let w = if c == r + skip { 1. } else { 0. };
            ctx.check(a == w && b == 0., || format!("{what}: pseudoidentity[{r},{c}] = {a}+{b}i"));
        }
    }
    for r in skip..m {
        for c in 0..m {
            let (mut re, mut im, mut t) = (Acc::default(), Acc::default(), 0.);
            for k in 0..m {
                let (a, b) = p[[r, k]].parts();
                if a == 0. && b == 0. {
                    continue;
                }
                let d = dref[[k, c]];
                re.add(a * d.re);
                re.add(-b * d.im);
                im.add(a * d.im);
                im.add(b * d.re);
                t += (a.abs() + b.abs()) * (d.re.abs() + d.im.abs());
            }
            let w = if r == c { 1. } else { 0. };
            let ok = (re.get() - w).abs() <= fac * (t + w) && im.get().abs() <= fac * (t + w);
            ctx.check(ok, || format!("{what}: (D_pinv @ D)[{r},{c}] = {:e}+{:e}i expected {w}", re.get(), im.get()));
        }
    }
}

/// The matrix is the matrix of the gradient
fn c06_gradient<A: Real, T: Scal>(ctx: &Ctx, b: &Spec<T>, m: &Array2<C>, d: usize, n: usize, seed: u64) {
    let mut rng = Rng::new(seed ^ d as u64);
    let v: Vec<T> = vec_of(&mut rng, b.to.nin, 0, 0);
    let o = to_c(&b.to.run(&v));
    let g = to_c(&b.grad.times(d).route(&v, rng.below(ROUTES), 1));
    let big = o.iter().fold(0f64, |a, z| a.max(z.norm()));
    for r in 0..m.nrows() {
        let (mut s, mut t) = (C::new(0., 0.), 0.);
        for c in 0..m.ncols() {
            let x = m[[r, c]];
            s += x * o[c];
            t += (x.re.abs() + x.im.abs()) * (o[c].re.abs() + o[c].im.abs() + 3. * big);
        }
        let e = (s - g[r]).norm();
        ctx.check(e <= A::EPS * (64. + 16. * (n * d) as f64) * t, || format!("diffmat({d}) @ v differs from gradient at {r}: {s} {}", g[r]));
    }
}

fn c06_one<A: Real>(ctx: &mut Ctx, kind: Kind, n: usize, seed: u64)
where
    Complex<A>: Scal,
{
    let fourier = matches!(kind, Kind::R2c | Kind::C2c);
    let eps = 64. * A::EPS;
    let base = A::base(kind, n, if seed & 1 == 0 { Make::Wrapper } else { Make::Struct });
    let el = base.el();
    for d in 1..=4usize {
        if !fourier && n < d + 1 {
            continue;
        }
        let want = ref_dmat(kind, n, d);
        let what = format!("diffmat({d})");
        let skip = if fourier { 1 } else { d };
        let m = el.diffmat(d);
        check_matrix(ctx, &m, &want, eps, &what);
        let (p, i) = el.diffmat_pinv(d);
        check_pinv(ctx, &p, &i, &want, skip, eps, &what);
        on_base!(&base, |b| c06_gradient::<A, _>(ctx, &b.sp, &m, d, n, seed));
        if !fourier {
            let (w, mag) = ref_pinv(n, d);
            for i in d..n {
                for j in 0..n - d {
                    let g = p[[i, j]].re;
                    ctx.check((g - w[[i, j]]).abs() <= eps * mag[[i, j]], || {
                        format!("diffmat_pinv({d})[{i},{j}] = {g:e} expected {:e}", w[[i, j]])
                    });
                }
            }
        }
        ctx.seen(&format!("{kind:?} n={n} d={d} {}", <A as Scal>::NAME));
    }
    // Laplacian
    if fourier || n >= 3 {
        let want = ref_dmat(kind, n, 2);
        let skip = if fourier { 1 } else { 2 };
        let (l, (p, i)) = (el.laplacian(), el.laplacian_pinv());
        check_matrix(ctx, &l, &want, eps, "laplacian");
        check_pinv(ctx, &p, &i, &want, skip, eps, "laplacian");
        ctx.seen(&format!("laplacian {kind:?} n={n} {}", <A as Scal>::NAME));
    }
}

/// Large sizes: only the entries, O(n^2)
fn c06_large<A: Real>(ctx: &mut Ctx, kind: Kind, n: usize, d: usize)
where
    Complex<A>: Scal,
{
    let eps = 64. * A::EPS;
    let want = ref_dmat(kind, n, d);
    let base = A::base(kind, n, Make::Wrapper);
    check_matrix(ctx, &base.el().diffmat(d), &want, eps, &format!("diffmat({d})"));
    let (p, i) = base.el().diffmat_pinv(d);
    let rows = i.nrows();
    if matches!(kind, Kind::R2c | Kind::C2c) {
        let m = kind.len_orth(n);
        for i in 0..m {
            for j in 0..m {
                if i == 0 || j == 0 {
                    continue;
                }
                let w = if i == j { C::new(1., 0.) / want[[i, i]] } else { C::new(0., 0.) };
                let g = p[[i, j]];
                ctx.check((g - w).norm() <= eps * w.norm(), || format!("diffmat_pinv({d})[{i},{j}] = {g:?} expected {w}"));
            }
        }
    } else {
        ctx.check(rows == n - d, || format!("pseudoidentity has {rows} rows"));
        let (w, mag) = ref_pinv(n, d);
        for i in d..n {
            for j in 0..n - d {
                let g = p[[i, j]].re;
                ctx.check((g - w[[i, j]]).abs() <= eps * mag[[i, j]], || format!("diffmat_pinv({d})[{i},{j}] = {g:e} expected {:e}", w[[i, j]]));
            }
        }
    }
    ctx.seen(&format!("large {kind:?} n={n} d={d} {}", <A as Scal>::NAME));
}

fn c06_type<A: Real>(ctx: &mut Ctx)
where
    Complex<A>: Scal,
{
    let dense = if ctx.thorough() { 220 } else { 64 };
    let mut rng = Rng::new(ctx.seed);
    let mut large = if ctx.thorough() { vec![300, 400, 511, 512, 513, 565, 600, 700, 777, 900, 1024, 1025, 1300] } else { vec![100, 128, 257, 520, 600, 777] };
    large.extend((0..if ctx.thorough() { 8 } else { 2 }).map(|_| rng.range(dense, if ctx.thorough() { 2500 } else { 1100 })));
    for kind in Kind::ALL {
        for n in kind.min_n()..=dense {
            if let Some(seed) = ctx.begin(&format!("C06 {kind:?} {} n={n}", <A as Scal>::NAME)) {
                c06_one::<A>(ctx, kind, n, seed);
            }
            if ctx.out_of_time() {
                return;
            }
        }
        for &n in &large {
            for d in 1..=4 {
                if ctx.begin(&format!("C06 large {kind:?} {} n={n} d={d}", <A as Scal>::NAME)).is_some() {
                    c06_large::<A>(ctx, kind, n, d);
                }
            }
            if ctx.out_of_time() {
                return;
            }
        }
    }
}

pub fn c06(ctx: &mut Ctx) {
    c06_type::<f64>(ctx);
    c06_type::<f32>(ctx);
    crate::p_space::matrices(ctx);
}
