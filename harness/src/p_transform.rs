//! C01 (exact coefficients / values) and C02 (round trips), C12 (grid).
use num_complex::Complex;
use fsmon::ctx::Ctx;
use fsmon::nd::{Base1, Make, ROUTES, ROUTE_NAMES};
use fsmon::gen::{huge, sizes, vec_of, Rng, STYLES};
use fsmon::num::{tiny, to_c, Real, Scal, C};
use fsmon::oracle::{self, norm2, Kind};
use fsmon::on_base;

pub fn cmp(ctx: &Ctx, got: &[C], want: &[C], tol: f64, what: &str) {
    ctx.check(got.len() == want.len(), || format!("{what}: length {} expected {}", got.len(), want.len()));
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let d = (g.re - w.re).abs().max((g.im - w.im).abs());
        if !(d <= tol) {
            ctx.fail(&format!("{what}: index {i} of {}: got {g} expected {w} (|diff|={d:e} tol={tol:e})", got.len()));
        }
    }
}

pub fn lg(n: usize) -> f64 {
    ((n + 1) as f64).log2() + 4.
}

/// Tolerances: FFT-type algorithms, relative to the 2-norm of the input.
pub fn tol_fwd(kind: Kind, n: usize, eps: f64, x: &[C]) -> f64 {
    let base = 20. * eps * lg(n) * norm2(x) * (n as f64).sqrt();
    base * if kind == Kind::Cheb { 2. / (n as f64 - 1.) } else { 1. } + tiny(eps)
}
pub fn tol_bwd(kind: Kind, n: usize, eps: f64, x: &[C]) -> f64 {
    let base = 20. * eps * lg(n) * norm2(x) * (n as f64).sqrt();
    base / if kind == Kind::Cheb { 1. } else { n as f64 } + tiny(eps)
}

pub fn want_forward(kind: Kind, x: &[C]) -> Vec<C> {
    match kind {
        Kind::Cheb => oracle::cheb_coeffs(x),
        Kind::R2c => oracle::dft(x, x.len() / 2 + 1, -1.),
        _ => oracle::dft(x, x.len(), -1.),
    }
}
pub fn want_backward(kind: Kind, n: usize, c: &[C]) -> Vec<C> {
    match kind {
        Kind::Cheb => oracle::cheb_values(c),
        Kind::R2c => oracle::irdft(c, n),
        _ => oracle::dft(c, n, 1.).iter().map(|v| v / n as f64).collect(),
    }
}

fn c01_one<A: Real, P: Scal, S: Scal>(ctx: &mut Ctx, b: &Base1<A, P, S>, kind: Kind, n: usize, style: usize, seed: u64, wrapper: &str) {
    let mut rng = Rng::new(seed);
    let route = rng.below(ROUTES);
    let salt = rng.below(1000);
    let x: Vec<P> = vec_of(&mut rng, b.len_phys(), style, A::EMAX);
    let xc = to_c(&x);
    let got = to_c(&b.fwd.route(&x, route, salt));
    cmp(ctx, &got, &want_forward(kind, &xc), tol_fwd(kind, n, A::EPS, &xc), &format!("forward via {}", ROUTE_NAMES[route]));
    let route2 = rng.below(ROUTES);
    let y: Vec<S> = vec_of(&mut rng, b.len_spec(), style, A::EMAX);
    let yc = to_c(&y);
    let got = to_c(&b.bwd.route(&y, route2, salt));
    cmp(ctx, &got, &want_backward(kind, n, &yc), tol_bwd(kind, n, A::EPS, &yc), &format!("backward via {}", ROUTE_NAMES[route2]));
    ctx.count("values_compared", (2 * n) as u64);
    ctx.seen(&format!("{kind:?} n={n} {} {} {wrapper} fwd:{} bwd:{}", <A as Scal>::NAME, STYLES[style], ROUTE_NAMES[route], ROUTE_NAMES[route2]));
}

/// Large sizes: the outputs at a sample of indices, and sparse inputs
fn c01_huge<A: Real, P: Scal, S: Scal>(ctx: &mut Ctx, b: &Base1<A, P, S>, kind: Kind, n: usize, seed: u64) {
    let mut rng = Rng::new(seed);
    let (route, salt, style) = (rng.below(ROUTES), rng.below(1000), rng.below(STYLES.len()));
    let m = b.len_spec();
    let spots = |rng: &mut Rng, m: usize| -> Vec<usize> {
        let mut v = vec![0, 1, m / 2, m - 2, m - 1];
        v.extend((0..25).map(|_| rng.below(m)));
        v
    };
    let x: Vec<P> = vec_of(&mut rng, n, style, A::EMAX);
    let xc = to_c(&x);
    let got = to_c(&b.fwd.route(&x, route, salt));
    let (ks, js) = (spots(&mut rng, m), spots(&mut rng, n));
    ctx.check(got.len() == m, || format!("forward: length {}", got.len()));
    let pick = |v: &[C], at: &[usize]| -> Vec<C> { at.iter().map(|i| v[*i]).collect() };
    cmp(ctx, &pick(&got, &ks), &oracle::forward_at(kind, &xc, &ks), tol_fwd(kind, n, A::EPS, &xc), &format!("forward via {} (indices {ks:?})", ROUTE_NAMES[route]));
    let y: Vec<S> = vec_of(&mut rng, m, style, A::EMAX);
    let yc = to_c(&y);
    let got = to_c(&b.bwd.route(&y, route, salt));
    ctx.check(got.len() == n, || format!("backward: length {}", got.len()));
    cmp(ctx, &pick(&got, &js), &oracle::backward_at(kind, n, &yc, &js), tol_bwd(kind, n, A::EPS, &yc), &format!("backward via {} (indices {js:?})", ROUTE_NAMES[route]));
    ctx.count("large_sizes", 1);
    ctx.seen(&format!("{kind:?} n={n} {} {} {}", <A as Scal>::NAME, STYLES[style], ROUTE_NAMES[route]));
}

fn c01_type<A: Real>(ctx: &mut Ctx)
where
    Complex<A>: Scal,
{
    let mut rng = Rng::new(ctx.seed);
    for n in huge(&mut rng, ctx.thorough()) {
        for kind in [Kind::Cheb, Kind::R2c, Kind::C2c] {
            if let Some(seed) = ctx.begin(&format!("C01 {kind:?} {} n={n} large", <A as Scal>::NAME)) {
                on_base!(&A::base(kind, n, Make::Wrapper), |b| c01_huge(ctx, b, kind, n, seed));
            }
            if ctx.out_of_time() {
                return;
            }
        }
    }
    let (dense, max, extra, reps) = if ctx.thorough() { (600, 16385, 60, 8) } else { (200, 4097, 16, 5) };
    for kind in [Kind::Cheb, Kind::R2c, Kind::C2c] {
        for n in sizes(&mut rng, kind.min_n(), dense, max, extra) {
            let reps = if n > 1100 { 1 } else if n <= 40 { 2 * reps } else { reps };
            for r in 0..reps {
                let style = (rng.below(STYLES.len()) + r) % STYLES.len();
                let conc = rng.coin();
                if let Some(seed) = ctx.begin(&format!("C01 {kind:?} {} n={n} style={} rep={r}", <A as Scal>::NAME, STYLES[style])) {
                    let make = if conc { Make::Struct } else { Make::Wrapper };
                    on_base!(&A::base(kind, n, make), |b| c01_one(ctx, b, kind, n, style, seed, &format!("{make:?}")));
                }
                if ctx.out_of_time() {
                    return;
                }
            }
        }
    }
}

pub fn c01(ctx: &mut Ctx) {
    c01_type::<f64>(ctx);
    c01_type::<f32>(ctx);
    // every single basis function, sampled on the base's own grid
    let dense = if ctx.thorough() { 90 } else { 40 };
    for kind in [Kind::Cheb, Kind::R2c, Kind::C2c] {
        for n in kind.min_n()..=dense {
            if ctx.begin(&format!("C01 modes {kind:?} n={n}")).is_some() {
                on_base!(&f64::base(kind, n, Make::Wrapper), |b| modes(ctx, b, kind, n));
            }
        }
    }
}

/// forward(phi_k sampled at coords()) is the k-th unit vector (times n for
/// the unnormalised Fourier transforms)
fn modes<P: Scal, S: Scal>(ctx: &mut Ctx, b: &Base1<f64, P, S>, kind: Kind, n: usize) {
    let x = b.el.coords();
    for k in 0..b.len_spec() {
        let v: Vec<P> = x
            .iter()
            .map(|x| match kind {
                Kind::Cheb => P::make((k as f64 * x.clamp(-1., 1.).acos()).cos(), 0.),
                Kind::R2c => P::make((k as f64 * x).cos(), 0.),
                _ => P::make((k as f64 * x).cos(), (k as f64 * x).sin()),
            })
            .collect();
        let mut want = vec![C::new(0., 0.); b.len_spec()];
        want[k] = C::new(
            match kind {
                Kind::Cheb => 1.,
                Kind::R2c if k > 0 && 2 * k < n => n as f64 / 2.,
                _ => n as f64,
            },
            0.,
        );
        let got = to_c(&b.fwd.route(&v, 0, 0));
        cmp(ctx, &got, &want, 1e-9 * n as f64, &format!("forward of basis function {k}"));
        ctx.seen(&format!("mode {kind:?} n={n} k={k}"));
    }
}

// ------------------------------------------------------------------ C02

/// Growth of the rounding error of the banded least-squares solve
pub fn cond(kind: Kind, n: usize) -> f64 {
    let n = n as f64;
    match kind {
        Kind::Cheb | Kind::R2c | Kind::C2c => 1.,
        Kind::Dir | Kind::Neu | Kind::DirNeu => n * n,
        Kind::BihA | Kind::BihB => n.powi(4),
    }
}

/// Relative difference that always counts as a violation, whatever rounding
/// bound the sizes would allow: single precision solves of long biharmonic
/// axes lose more than any fixed bound (measured: up to 2e-4 n^4 eps for an
/// arbitrary right-hand side, ten times less for a field inside the space)
pub fn cap<A: Real>(kinds: &[Kind], ns: &[usize]) -> f64 {
    let long = |(k, n): (&Kind, &usize)| if matches!(k, Kind::BihA | Kind::BihB) { 2e-3 * (*n as f64).powi(4) * A::EPS } else { 0. };
    kinds.iter().zip(ns).map(long).sum::<f64>().max(1e-2)
}

/// The same for coefficients that lie inside the space
pub fn cap_inside<A: Real>(n: usize) -> f64 {
    1e-2 * if A::EPS > 1e-10 { (n as f64 / 500.).powi(4).max(1.) } else { 1. }
}

fn c02_one<A: Real, P: Scal, S: Scal>(ctx: &mut Ctx, b: &Base1<A, P, S>, kind: Kind, n: usize, style: usize, seed: u64) {
    let mut rng = Rng::new(seed);
    let (r1, r2, salt) = (rng.below(ROUTES), rng.below(ROUTES), rng.below(1000));
    let root = (n as f64).sqrt();
    if kind.bcs().is_empty() {
        let x: Vec<P> = vec_of(&mut rng, b.len_phys(), style, A::EMAX);
        let h = b.fwd.route(&x, r1, salt);
        let y = b.bwd.route(&h, r2, salt);
        let xc = to_c(&x);
        let tol = 40. * A::EPS * lg(n) * norm2(&xc) * root + A::TINY;
        cmp(ctx, &to_c(&y), &xc, tol, &format!("backward(forward(x)) via {}/{}", ROUTE_NAMES[r1], ROUTE_NAMES[r2]));
    }
    // admissible coefficients
    let mut c: Vec<S> = vec_of(&mut rng, b.len_spec(), style, A::EMAX.min(12));
    if kind == Kind::R2c {
        c[0] = S::make(c[0].parts().0, 0.);
        if n % 2 == 0 {
            let l = c.len() - 1;
            c[l] = S::make(c[l].parts().0, 0.);
        }
    }
    let u = b.bwd.route(&c, r2, salt);
    let c2 = b.fwd.route(&u, r1, salt);
    let cc = to_c(&c);
    let what = format!("forward(backward(c)) via {}/{}", ROUTE_NAMES[r2], ROUTE_NAMES[r1]);
    let tol = 40. * A::EPS * lg(n) * norm2(&cc) * root + A::TINY;
    if kind.bcs().is_empty() {
        cmp(ctx, &to_c(&c2), &cc, tol, &what);
    } else {
        // the field represented by the coefficients is well conditioned ...
        let o1 = to_c(&b.sp.to.route(&c, 0, 0));
        let o2 = to_c(&b.sp.to.route(&c2, 0, 0));
        let tol = 400. * A::EPS * lg(n) * norm2(&o1).max(norm2(&cc)) * root * n as f64 + A::TINY;
        cmp(ctx, &o2, &o1, tol.min(cap_inside::<A>(n) * norm2(&o1).max(norm2(&cc)).max(A::TINY)), &format!("{what} (as orthogonal coefficients)"));
        // ... the coefficients themselves up to the conditioning of the base
        let k = cond(kind, n) * 40. * A::EPS * lg(n) * root;
        if k < 1e-3 {
            cmp(ctx, &to_c(&c2), &cc, k * norm2(&cc) + A::TINY, &what);
            ctx.count("coefficientwise", 1);
        }
    }
    ctx.seen(&format!("{kind:?} n={n} {} {} {}/{}", <A as Scal>::NAME, STYLES[style], ROUTE_NAMES[r1], ROUTE_NAMES[r2]));
}

fn c02_type<A: Real>(ctx: &mut Ctx)
where
    Complex<A>: Scal,
{
    let mut rng = Rng::new(ctx.seed);
    for n in huge(&mut rng, ctx.thorough()) {
        for kind in Kind::ALL {
            // no digits left for single precision solves of this size
            if !kind.bcs().is_empty() && (A::EPS > 1e-10 || kind.bcs().len() == 4) {
                continue;
            }
            let style = rng.below(STYLES.len());
            if let Some(seed) = ctx.begin(&format!("C02 {kind:?} {} n={n} style={} large", <A as Scal>::NAME, STYLES[style])) {
                on_base!(&A::base(kind, n, Make::Wrapper), |b| c02_one(ctx, b, kind, n, style, seed));
            }
        }
    }
    let (dense, max, extra, reps) = if ctx.thorough() { (1100, 16385, 200, 6) } else { (400, 8193, 40, 4) };
    for kind in Kind::ALL {
        let max = if kind.bcs().is_empty() { max } else { max.min(2049) };
        for n in sizes(&mut rng, kind.min_n(), dense, max, extra) {
            let reps = if n <= 40 { 2 * reps } else { reps };
            for r in 0..reps {
                let style = (rng.below(STYLES.len()) + r) % STYLES.len();
                if let Some(seed) = ctx.begin(&format!("C02 {kind:?} {} n={n} style={} rep={r}", <A as Scal>::NAME, STYLES[style])) {
                    let make = if seed & 1 == 0 { Make::Wrapper } else { Make::Struct };
                    on_base!(&A::base(kind, n, make), |b| c02_one(ctx, b, kind, n, style, seed));
                }
                if ctx.out_of_time() {
                    return;
                }
            }
        }
    }
}

pub fn c02(ctx: &mut Ctx) {
    c02_type::<f64>(ctx);
    c02_type::<f32>(ctx);
    crate::p_space::roundtrips(ctx);
}

// ------------------------------------------------------------------ C12

pub fn c12_one<A: Real>(ctx: &mut Ctx, kind: Kind, n: usize, x: &[A], what: &str) {
    let eps = A::EPS;
    ctx.check(x.len() == n, || format!("{what}: {} grid points for a base of size {n}", x.len()));
    for (k, v) in x.iter().enumerate() {
        let v = v.f();
        let want = if matches!(kind, Kind::R2c | Kind::C2c) {
            2. * std::f64::consts::PI * k as f64 / n as f64
        } else {
            -oracle::cospi_sinpi(k, n - 1).0
        };
        // absolute accuracy: a few ulp of the interval length
        let tol = 8. * eps * if matches!(kind, Kind::R2c | Kind::C2c) { 7. } else { 1. };
        if !((v - want).abs() <= tol) {
            ctx.fail(&format!("{what}: point {k}: got {v:e} expected {want:e}"));
        }
        if k > 0 && n < 2000 {
            let p = x[k - 1].f();
            ctx.check(v > p, || format!("{what}: points {} and {k} not increasing: {p} {v}", k - 1));
        }
    }
    if !matches!(kind, Kind::R2c | Kind::C2c) {
        ctx.check((x[0].f() + 1.).abs() <= eps && (x[n - 1].f() - 1.).abs() <= eps, || format!("{what}: end points {} {}", x[0], x[n - 1]));
        for k in 0..n {
            let (a, b) = (x[k].f(), x[n - 1 - k].f());
            ctx.check((a + b).abs() <= 8. * eps, || format!("{what}: grid not symmetric at {k}: {a} {b}"));
        }
    } else {
        ctx.check(x[0].f() == 0., || format!("{what}: first point {}", x[0]));
        ctx.check(x[n - 1].f() < 2. * std::f64::consts::PI, || format!("{what}: last point {} outside [0, 2pi[", x[n - 1]));
    }
    ctx.count("points", n as u64);
    ctx.seen(&format!("{what} n={n}"));
}

fn c12_type<A: Real>(ctx: &mut Ctx)
where
    Complex<A>: Scal,
{
    let mut rng = Rng::new(ctx.seed);
    let (dense, max, extra) = if ctx.thorough() { (12000, 200_000, 300) } else { (4000, 32769, 120) };
    for kind in Kind::ALL {
        for n in sizes(&mut rng, kind.min_n(), dense, max, extra) {
            if let Some(seed) = ctx.begin(&format!("C12 {kind:?} {} n={n}", <A as Scal>::NAME)) {
                // planning a transform is the expensive part: bases for a
                // sample of sizes, the static node functions for all
                let nodes = match kind {
                    Kind::R2c => funspace::fourier::FourierR2c::<A>::nodes(n),
                    Kind::C2c => funspace::fourier::FourierC2c::<A>::nodes(n),
                    _ => funspace::chebyshev::Chebyshev::<A>::nodes(n),
                };
                c12_one::<A>(ctx, kind, n, &nodes, &format!("{kind:?} {} nodes", <A as Scal>::NAME));
                if n < 400 || seed % 5 == 0 {
                    let x: Vec<A> = A::base(kind, n, Make::Wrapper).el().coords();
                    c12_one::<A>(ctx, kind, n, &x, &format!("{kind:?} {} coords", <A as Scal>::NAME));
                }
            }
            if ctx.out_of_time() {
                return;
            }
        }
    }
}

pub fn c12(ctx: &mut Ctx) {
    c12_type::<f64>(ctx);
    c12_type::<f32>(ctx);
    crate::p_space::coords(ctx);
}
