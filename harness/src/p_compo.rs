//! C03 (boundary conditions) and C04 (projection onto a composite base).
use fsmon::ctx::Ctx;
use fsmon::nd::{Base1, Make, Spec, ROUTES, ROUTE_NAMES};
use fsmon::gen::{sizes, vec_of, Rng, STYLES};
use fsmon::num::{tiny, to_c, Real, Scal, C};
use fsmon::oracle::{self, abs_c, cols_abs, norm2, stencil_apply, stencil_apply_t, stencil_cols, t_end, Acc, Kind};
use fsmon::on_base;
use num_complex::Complex;

use crate::p_transform::{lg, tol_bwd, tol_fwd};

/// Componentwise comparison |got - want| <= tol_i (separately for both parts)
pub fn cmp_comp(ctx: &Ctx, got: &[C], want: &[C], tol: &[C], scale: f64, eps: f64, what: &str) {
    ctx.check(got.len() == want.len(), || format!("{what}: length {} expected {}", got.len(), want.len()));
    for i in 0..got.len() {
        for (g, w, t) in [(got[i].re, want[i].re, tol[i].re), (got[i].im, want[i].im, tol[i].im)] {
            let t = t * scale + tiny(eps);
            if !((g - w).abs() <= t) {
                ctx.fail(&format!("{what}: index {i} of {}: got {} expected {} (|diff|={:e} tol={t:e})", got.len(), got[i], want[i], (g - w).abs()));
            }
        }
    }
}

fn add(a: &[C], b: &[C]) -> Vec<C> {
    a.iter().zip(b).map(|(x, y)| x + y).collect()
}

/// Both boundary functionals of a kind, applied to orthogonal coefficients
fn boundary(ctx: &Ctx, kind: Kind, o: &[C], scale: &[C], fac: f64, slack: f64, what: &str) {
    for &(d, right) in kind.bcs() {
        let (mut a, mut b, mut ta, mut tb) = (Acc::default(), Acc::default(), 0., 0.);
        for (k, c) in o.iter().enumerate() {
            let t = t_end(k, d, right);
            a.add(t * c.re);
            b.add(t * c.im);
            ta += t.abs() * scale[k].re;
            tb += t.abs() * scale[k].im;
        }
        let (a, b) = (a.get(), b.get());
        let ok = a.abs() <= fac * ta + slack && b.abs() <= fac * tb + slack;
        ctx.check(ok, || {
            format!("{what}: derivative {d} at x={} is ({a:e},{b:e}), tolerance ({:e},{:e})", if right { 1 } else { -1 }, fac * ta, fac * tb)
        });
    }
}

fn c03_coeffs<A: Real, T: Scal>(ctx: &mut Ctx, b: &Spec<T>, kind: Kind, n: usize, style: usize, seed: u64) {
    let mut rng = Rng::new(seed ^ 0x77);
    let (r1, r2, salt) = (rng.below(ROUTES), rng.below(ROUTES), rng.below(1000));
    let v: Vec<T> = vec_of(&mut rng, b.to.nin, style, A::EMAX.min(12));
    let cols = cols_abs(&stencil_cols(kind, n));
    let sv = stencil_apply(&cols, n, &abs_c(&to_c(&v)));
    let fac = A::EPS * (64. + 4. * n as f64);
    let o = to_c(&b.to.route(&v, r1, salt));
    boundary(ctx, kind, &o, &sv, fac, A::TINY, &format!("to_ortho via {}", ROUTE_NAMES[r1]));
    // the same conditions as seen through the differentiation of the base
    for &(d, right) in kind.bcs() {
        let g = to_c(&b.grad.times(d).route(&v, r2, salt));
        let sc = oracle::cheb_deriv_n(&sv, d);
        let (mut s, mut t) = (C::new(0., 0.), C::new(0., 0.));
        for k in 0..n {
            s += g[k] * t_end(k, 0, right);
            t += sc[k];
        }
        ctx.check(
            s.re.abs() <= fac * t.re + A::TINY && s.im.abs() <= fac * t.im + A::TINY,
            || format!("gradient({d}) via {} evaluated at the wall: {s} tolerance {}", ROUTE_NAMES[r2], t * fac),
        );
    }
    ctx.seen(&format!("coeffs {kind:?} n={n} {} {} {}", T::NAME, STYLES[style], ROUTE_NAMES[r1]));
}

fn c03_field<A: Real>(ctx: &mut Ctx, b: &Base1<A, A, A>, kind: Kind, n: usize, style: usize, seed: u64) {
    let mut rng = Rng::new(seed);
    let (r1, r2, salt) = (rng.below(ROUTES), rng.below(ROUTES), rng.below(1000));
    let x: Vec<A> = vec_of(&mut rng, n, style, A::EMAX.min(12));
    // an arbitrary field: the transform enforces the conditions
    let v = b.fwd.route(&x, r1, salt);
    let cols = cols_abs(&stencil_cols(kind, n));
    let sv = stencil_apply(&cols, n, &abs_c(&to_c(&v)));
    let fac = A::EPS * (64. + 4. * n as f64);
    let what = format!("field transformed via {}", ROUTE_NAMES[r1]);
    let o = to_c(&b.sp.to.route(&v, r2, salt));
    boundary(ctx, kind, &o, &sv, fac, A::TINY, &what);
    let f = b.bwd.route(&v, r2, salt);
    let tol = tol_bwd(Kind::Cheb, n, A::EPS, &sv) + fac * sv.iter().map(|c| c.re).sum::<f64>();
    for &(d, right) in kind.bcs() {
        if d == 0 {
            let e = if right { f[n - 1] } else { f[0] }.f();
            ctx.check(e.abs() <= tol, || format!("{what}, back via {}: wall value {e:e} tolerance {tol:e}", ROUTE_NAMES[r2]));
            // a tolerance that reached the size of the field would show nothing
            if tol < 1e-2 * norm2(&o) {
                ctx.count("sharp_wall_values", 1);
            }
        }
    }
    ctx.seen(&format!("field {kind:?} n={n} {} {} {}/{}", <A as Scal>::NAME, STYLES[style], ROUTE_NAMES[r1], ROUTE_NAMES[r2]));
}

fn c03_type<A: Real>(ctx: &mut Ctx)
where
    Complex<A>: Scal,
{
    let mut rng = Rng::new(ctx.seed);
    for n in fsmon::gen::huge(&mut rng, ctx.thorough()) {
        for kind in Kind::COMPOSITE {
            if A::EPS > 1e-10 {
                continue;
            }
            let style = rng.below(STYLES.len());
            if let Some(seed) = ctx.begin(&format!("C03 {kind:?} {} n={n} style={} large", <A as Scal>::NAME, STYLES[style])) {
                let b = A::base(kind, n, Make::Wrapper).r();
                c03_field(ctx, &b, kind, n, style, seed);
                c03_coeffs::<A, Complex<A>>(ctx, b.cx.as_ref().unwrap(), kind, n, style, seed);
            }
        }
    }
    let (dense, max, extra, reps) = if ctx.thorough() { (1100, 4097, 100, 24) } else { (500, 1100, 30, 8) };
    for kind in Kind::COMPOSITE {
        for n in sizes(&mut rng, kind.min_n(), dense, max, extra) {
            let reps = if n <= 64 { 2 * reps } else { reps };
            for r in 0..reps {
                let style = (rng.below(STYLES.len()) + r) % STYLES.len();
                if let Some(seed) = ctx.begin(&format!("C03 {kind:?} {} n={n} style={} rep={r}", <A as Scal>::NAME, STYLES[style])) {
                    let b = A::base(kind, n, Make::Wrapper).r();
                    c03_field(ctx, &b, kind, n, style, seed);
                    if r % 2 == 0 {
                        c03_coeffs::<A, A>(ctx, &b.sp, kind, n, style, seed);
                    } else {
                        c03_coeffs::<A, Complex<A>>(ctx, b.cx.as_ref().unwrap(), kind, n, style, seed);
                    }
                }
                if ctx.out_of_time() {
                    return;
                }
            }
        }
    }
}

pub fn c03(ctx: &mut Ctx) {
    c03_type::<f64>(ctx);
    c03_type::<f32>(ctx);
    crate::p_space::walls(ctx);
}

// ------------------------------------------------------------------ C04

fn residual(ctx: &Ctx, kind: Kind, n: usize, u: &[C], v: &[C], extra: f64, eps: f64, what: &str) {
    let cols = stencil_cols(kind, n);
    let ca = cols_abs(&cols);
    let sv = stencil_apply(&cols, n, v);
    let r: Vec<C> = sv.iter().zip(u).map(|(a, b)| a - b).collect();
    let res = stencil_apply_t(&cols, &r);
    let mag = add(&stencil_apply(&ca, n, &abs_c(v)), &abs_c(u));
    let mut tol = stencil_apply_t(&ca, &mag);
    let ex = stencil_apply_t(&ca, &vec![C::new(extra, extra); n]);
    for (t, e) in tol.iter_mut().zip(&ex) {
        *t = *t * (100. * eps) + *e;
    }
    let zero = vec![C::new(0., 0.); res.len()];
    cmp_comp(ctx, &res, &zero, &tol, 1., eps, what);
}

fn c04_one<A: Real, T: Scal>(ctx: &mut Ctx, b: &Spec<T>, kind: Kind, n: usize, style: usize, seed: u64) {
    let mut rng = Rng::new(seed ^ 0x99);
    let (r1, r2, salt) = (rng.below(ROUTES), rng.below(ROUTES), rng.below(1000));
    let cols = stencil_cols(kind, n);
    let ca = cols_abs(&cols);
    // to_ortho is the documented stencil
    let v: Vec<T> = vec_of(&mut rng, b.to.nin, style, A::EMAX.min(12));
    let vc = to_c(&v);
    let o = b.to.route(&v, r1, salt);
    let want = stencil_apply(&cols, n, &vc);
    let mag = stencil_apply(&ca, n, &abs_c(&vc));
    cmp_comp(ctx, &to_c(&o), &want, &mag, 64. * A::EPS, A::EPS, &format!("to_ortho via {}", ROUTE_NAMES[r1]));
    // from_ortho of something already inside is the identity (as a field)
    let v2 = b.from.route(&o, r2, salt);
    residual(ctx, kind, n, &to_c(&o), &to_c(&v2), 0., A::EPS, &format!("from_ortho(to_ortho(v)) via {}", ROUTE_NAMES[r2]));
    let o2 = b.to.route(&v2, 0, 0);
    let on = norm2(&to_c(&o)).max(norm2(&vc));
    let root = (n as f64).sqrt();
    let tol = (400. * A::EPS * lg(n) * root * n as f64).min(crate::p_transform::cap_inside::<A>(n)) * on + A::TINY;
    crate::p_transform::cmp(ctx, &to_c(&o2), &to_c(&o), tol, "projection is not idempotent: to_ortho(from_ortho(to_ortho(v)))");
    // from_ortho of an arbitrary vector: residual orthogonal to the space
    let u: Vec<T> = vec_of(&mut rng, n, style, A::EMAX.min(12));
    let w = b.from.route(&u, r2, salt);
    residual(ctx, kind, n, &to_c(&u), &to_c(&w), 0., A::EPS, &format!("from_ortho(u) via {}", ROUTE_NAMES[r2]));
    ctx.seen(&format!("{kind:?} n={n} {} {} {}/{}", T::NAME, STYLES[style], ROUTE_NAMES[r1], ROUTE_NAMES[r2]));
}

/// forward of a composite base is the projection of the Chebyshev interpolant
fn c04_forward<A: Real>(ctx: &mut Ctx, b: &Base1<A, A, A>, kind: Kind, n: usize, style: usize, seed: u64) {
    let mut rng = Rng::new(seed ^ 0x55);
    let (r1, salt) = (rng.below(ROUTES), rng.below(1000));
    let x: Vec<A> = vec_of(&mut rng, n, style, A::EMAX.min(12));
    let xc = to_c(&x);
    let v = b.fwd.route(&x, r1, salt);
    let u = oracle::cheb_coeffs(&xc);
    residual(ctx, kind, n, &u, &to_c(&v), tol_fwd(Kind::Cheb, n, A::EPS, &xc), A::EPS, &format!("forward via {}", ROUTE_NAMES[r1]));
    // and backward evaluates the represented field
    let c: Vec<A> = vec_of(&mut rng, b.len_spec(), style, A::EMAX.min(12));
    let f = b.bwd.route(&c, r1, salt);
    let cols = stencil_cols(kind, n);
    let o = stencil_apply(&cols, n, &to_c(&c));
    let mag = stencil_apply(&cols_abs(&cols), n, &abs_c(&to_c(&c)));
    let tol = tol_bwd(Kind::Cheb, n, A::EPS, &mag) + 64. * A::EPS * mag.iter().map(|c| c.re).sum::<f64>();
    crate::p_transform::cmp(ctx, &to_c(&f), &oracle::cheb_values(&o), tol, &format!("backward via {}", ROUTE_NAMES[r1]));
    ctx.seen(&format!("forward/backward {kind:?} n={n} {} {}", <A as Scal>::NAME, STYLES[style]));
}

/// Explicit matrices
fn c04_matrix<A: Real>(ctx: &mut Ctx, kind: Kind, n: usize)
where
    Complex<A>: Scal,
{
    let base = A::base(kind, n, if n % 2 == 0 { Make::Wrapper } else { Make::Struct });
    let b = base.el();
    let m = kind.len_spec(n);
    let s = b.stencil();
    ctx.check(s.shape() == [n, m], || format!("stencil has shape {:?}, expected [{n}, {m}]", s.shape()));
    let mut want = vec![vec![0.; m]; n];
    for (k, c) in stencil_cols(kind, n).iter().enumerate() {
        for &(r, x) in c {
            want[r][k] = x;
        }
    }
    for i in 0..n {
        for j in 0..m {
            let (g, w) = (s[[i, j]].f(), want[i][j]);
            ctx.check((g - w).abs() <= 64. * A::EPS * w.abs(), || format!("stencil[{i},{j}] = {g:e} expected {w:e}"));
        }
    }
    let p = b.stencil_inv();
    ctx.check(p.shape() == [m, n], || format!("stencil_inv has shape {:?}, expected [{m}, {n}]", p.shape()));
    let fac = A::EPS * (64. + 4. * n as f64);
    let cols = stencil_cols(kind, n);
    for i in 0..m {
        for j in 0..m {
            let (mut a, mut t) = (Acc::default(), 0.);
            for &(k, x) in &cols[j] {
                let q = p[[i, k]].f() * x;
                a.add(q);
                t += q.abs();
            }
            // a NaN beyond the columns of the stencil
            ctx.check(j > 0 || p.row(i).iter().all(|v| v.f().is_finite()), || format!("row {i} of stencil_inv is not finite"));
            let w = if i == j { 1. } else { 0. };
            ctx.check((a.get() - w).abs() <= fac * (t + w), || format!("(stencil_inv @ stencil)[{i},{j}] = {:e}", a.get()));
        }
    }
    ctx.count("matrix_entries", (2 * n * m) as u64);
    ctx.seen(&format!("matrix {kind:?} n={n} {}", <A as Scal>::NAME));
}

fn c04_type<A: Real>(ctx: &mut Ctx)
where
    Complex<A>: Scal,
{
    let mut rng = Rng::new(ctx.seed);
    let th = ctx.thorough();
    for n in fsmon::gen::huge(&mut rng, th) {
        for kind in Kind::COMPOSITE {
            // no digits are left for other solves of this size
            if A::EPS > 1e-10 || kind.bcs().len() == 4 {
                continue;
            }
            let style = rng.below(STYLES.len());
            if let Some(seed) = ctx.begin(&format!("C04 {kind:?} {} n={n} style={} large", <A as Scal>::NAME, STYLES[style])) {
                let b = A::base(kind, n, Make::Wrapper).r();
                c04_one::<A, A>(ctx, &b.sp, kind, n, style, seed);
                c04_one::<A, Complex<A>>(ctx, b.cx.as_ref().unwrap(), kind, n, style, seed);
            }
        }
    }
    let (dense, max, extra, reps) = if th { (900, 2049, 60, 16) } else { (260, 770, 10, 5) };
    for kind in Kind::COMPOSITE {
        let mut ns: Vec<usize> = (kind.min_n()..=(if th { 260 } else { 110 })).collect();
        let some: &[usize] = &[128, 129, 200, 256, 257, 300, 333, 400, 512, 513, 640, 777, 1000, 1024, 1025];
        ns.extend(some.iter().filter(|_| th || rng.below(2) == 0));
        ns.extend((0..if th { 20 } else { 2 }).map(|_| rng.range(300, if th { 3000 } else { 1500 })));
        for n in ns {
            if ctx.begin(&format!("C04 matrix {kind:?} {} n={n}", <A as Scal>::NAME)).is_some() {
                c04_matrix::<A>(ctx, kind, n);
            }
        }
        for n in sizes(&mut rng, kind.min_n(), dense, max, extra) {
            let reps = if n <= 64 { 2 * reps } else { reps };
            for r in 0..reps {
                let style = (rng.below(STYLES.len()) + r) % STYLES.len();
                if let Some(seed) = ctx.begin(&format!("C04 {kind:?} {} n={n} style={} rep={r}", <A as Scal>::NAME, STYLES[style])) {
                    let b = A::base(kind, n, if seed & 1 == 0 { Make::Wrapper } else { Make::Struct }).r();
                    c04_one::<A, A>(ctx, &b.sp, kind, n, style, seed);
                    c04_one::<A, Complex<A>>(ctx, b.cx.as_ref().unwrap(), kind, n, style, seed);
                    if r < 2 && n < 600 {
                        c04_forward::<A>(ctx, &b, kind, n, style, seed);
                    }
                }
                if ctx.out_of_time() {
                    return;
                }
            }
        }
    }
}

fn identity<A: Real, T: Scal>(ctx: &Ctx, rng: &mut Rng, b: &Spec<T>, r: usize, salt: usize) {
    let x: Vec<T> = vec_of(rng, b.to.nout, 6, A::EMAX);
    let y = b.to.route(&x, r, salt);
    let z = b.from.route(&x, r, salt);
    let e = fsmon::num::bits_eq(&x, &y).or(fsmon::num::bits_eq(&x, &z));
    ctx.check(e.is_none(), || format!("orthogonal base changed its input via {}: {e:?}", ROUTE_NAMES[r]));
}

/// Orthogonal bases: the change of base is the identity
fn c04_identity<A: Real>(ctx: &mut Ctx)
where
    Complex<A>: Scal,
{
    for kind in [Kind::Cheb, Kind::R2c, Kind::C2c] {
        for n in kind.min_n()..=(if ctx.thorough() { 200 } else { 90 }) {
            let Some(seed) = ctx.begin(&format!("C04 identity {kind:?} {} n={n}", <A as Scal>::NAME)) else { continue };
            let mut rng = Rng::new(seed);
            let (r, salt) = (rng.below(ROUTES), rng.below(100));
            let base = A::base(kind, n, if salt % 2 == 0 { Make::Wrapper } else { Make::Struct });
            on_base!(&base, |b| identity::<A, _>(ctx, &mut rng, &b.sp, r, salt));
            if let fsmon::nd::AnyBase::R(b) = &base {
                identity::<A, _>(ctx, &mut rng, b.cx.as_ref().unwrap(), r, salt);
            }
            let m = kind.len_orth(n);
            for s in [base.el().stencil(), base.el().stencil_inv()] {
                ctx.check(s.shape() == [m, m], || format!("stencil shape {:?}", s.shape()));
                for ((i, j), v) in s.indexed_iter() {
                    ctx.check(v.f() == if i == j { 1. } else { 0. }, || format!("stencil of an orthogonal base: [{i},{j}]={v}"));
                }
            }
            ctx.seen(&format!("identity {kind:?} n={n} {}", <A as Scal>::NAME));
        }
    }
}

pub fn c04(ctx: &mut Ctx) {
    c04_type::<f64>(ctx);
    c04_type::<f32>(ctx);
    c04_identity::<f64>(ctx);
    c04_identity::<f32>(ctx);
}
