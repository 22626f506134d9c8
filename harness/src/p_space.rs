//! C09 (spaces are tensor products) and the space-level parts of C02, C03,
//! C06, C07, C08, C12 and C22.
use fsmon::ctx::Ctx;
use fsmon::gen::{Rng, STYLES};
use fsmon::num::{bits_eq, Real, Scal};
use fsmon::oracle::{self, Kind};
use crate::p_transform::cap;
use fsmon::spaces::{apply, lift, lower, pick, visit_space, Case, Mode, SpaceVisitor, MODES, TYPES};
use fsmon::nd::{r2r, Make};
use funspace::*;
use ndarray::{Array2, ArrayD, Axis, IxDyn};
use num_complex::Complex;

use crate::p_nd::{dirt, fill};

fn maxabs<T: Scal>(a: &ArrayD<T>) -> f64 {
    a.iter().fold(0f64, |m, v| m.max(v.mag()))
}

pub fn near<T: Scal>(got: &ArrayD<T>, want: &ArrayD<T>, tol: f64) -> Option<String> {
    if got.shape() != want.shape() {
        return Some(format!("shape {:?} expected {:?}", got.shape(), want.shape()));
    }
    for (i, (g, w)) in got.iter().zip(want.iter()).enumerate() {
        let ((a, b), (c, d)) = (g.parts(), w.parts());
        if !((a - c).abs() <= tol && (b - d).abs() <= tol) {
            return Some(format!("flat index {i}: {g:?} expected {w:?} (tolerance {tol:e})"));
        }
    }
    None
}

/// The same result by another route through the library: equal up to rounding
fn alike<A: Real, P: Scal, S: Scal, T: Scal, I: Scal>(got: &ArrayD<T>, want: &ArrayD<T>, input: &ArrayD<I>, c: &Case<A, P, S>) -> Option<String> {
    if got.shape() == want.shape() && bits_eq(got.iter(), want.iter()).is_none() {
        return None;
    }
    let eps = (A::EPS * 1024. * growth(&c.kinds, &c.ns)).min(cap::<A>(&c.kinds, &c.ns));
    near(got, want, eps * maxabs(want).max(maxabs(input)) + A::TINY)
}

fn die(ctx: &Ctx, e: Option<String>, what: &str) {
    if let Some(e) = e {
        ctx.fail(&format!("{what}: {e}"));
    }
}

/// Rounding growth of the banded solves of all axes
fn growth(kinds: &[Kind], ns: &[usize]) -> f64 {
    kinds.iter().zip(ns).map(|(k, n)| crate::p_transform::cond(*k, *n).sqrt()).product()
}

/// Coefficients that a real field can have (real DC / Nyquist planes are
/// obtained by transforming a field)
fn spectral<A: Real, P: Scal, S: Scal>(rng: &mut Rng, c: &Case<A, P, S>, style: usize) -> ArrayD<S> {
    fill(rng, &c.obj.spec(), style)
}

/// Scale factors of either sign and of very different magnitude
pub fn scaling<A: Real>(rng: &mut Rng, nd: usize) -> Vec<A> {
    let wild = rng.below(3);
    (0..nd)
        .map(|_| {
            let sign = if wild > 0 && rng.coin() { -1. } else { 1. };
            let s = match wild {
                2 => 10f64.powf(rng.sym() * if A::EPS > 1e-10 { 1. } else { 4. }),
                _ if rng.below(8) == 0 => 1.,
                _ => 0.4 + 2.2 * rng.unit(),
            };
            A::r(sign * s)
        })
        .collect()
}

struct Tensor<'a> {
    ctx: &'a mut Ctx,
    rng: Rng,
    style: usize,
}

impl<A: Real> SpaceVisitor<A> for Tensor<'_>
where
    Complex<A>: Scal,
{
    fn visit<P: Scal, S: Scal>(&mut self, c: &Case<A, P, S>) {
        let (ctx, rng) = (&mut *self.ctx, &mut self.rng);
        let nd = c.kinds.len();
        let eps = A::EPS * 512. * nd as f64;
        let g = growth(&c.kinds, &c.ns);
        let shapes = (c.obj.phys(), c.obj.spec(), c.obj.orth());
        let want: (Vec<usize>, Vec<usize>, Vec<usize>) = (
            c.ns.clone(),
            c.kinds.iter().zip(&c.ns).map(|(k, n)| k.len_spec(*n)).collect(),
            c.kinds.iter().zip(&c.ns).map(|(k, n)| k.len_orth(*n)).collect(),
        );
        ctx.check(shapes == want, || format!("{}: shapes {shapes:?} expected {want:?}", c.name));
        let tag = |m: Mode, op: &str| format!("{} {op} {m:?}", c.name);
        // forward: last axis first (the only order the types allow)
        let f: ArrayD<P> = fill(rng, &c.obj.phys(), self.style);
        let mut r = lift::<A, P>(&f);
        for ax in (0..nd).rev() {
            r = apply(r, c.kinds[ax], c.ns[ax], "forward", ax);
        }
        let want: ArrayD<S> = lower(r);
        for m in MODES {
            let got = c.obj.forward(f.view(), m, None);
            die(ctx, near(&got, &want, (eps * g).min(cap::<A>(&c.kinds, &c.ns)) * maxabs(&want).max(maxabs(&f)) + A::TINY), &tag(m, "forward"));
        }
        // backward: first axis first
        let v = spectral(rng, c, self.style);
        let mut r = lift::<A, S>(&v);
        for ax in 0..nd {
            r = apply(r, c.kinds[ax], c.ns[ax], "backward", ax);
        }
        let want: ArrayD<P> = lower(r);
        for m in MODES {
            let got = c.obj.backward(v.view(), m, None);
            die(ctx, near(&got, &want, eps * 8. * maxabs(&want).max(maxabs(&v)) + A::TINY), &tag(m, "backward"));
        }
        // change of base; the reference walks the axes in the other order
        let mut r = lift::<A, S>(&v);
        for ax in (0..nd).rev() {
            r = apply(r, c.kinds[ax], c.ns[ax], "to_ortho", ax);
        }
        let want: ArrayD<S> = lower(r);
        for m in MODES {
            let got = c.obj.to_ortho(v.view(), m, None);
            die(ctx, near(&got, &want, eps * 8. * maxabs(&want).max(maxabs(&v)) + A::TINY), &tag(m, "to_ortho"));
        }
        let u: ArrayD<S> = fill(rng, &c.obj.orth(), self.style);
        let mut r = lift::<A, S>(&u);
        for ax in (0..nd).rev() {
            r = apply(r, c.kinds[ax], c.ns[ax], "from_ortho", ax);
        }
        let want: ArrayD<S> = lower(r);
        for m in MODES {
            let got = c.obj.from_ortho(u.view(), m, None);
            die(ctx, near(&got, &want, (eps * g).min(cap::<A>(&c.kinds, &c.ns)) * maxabs(&want).max(maxabs(&u)) + A::TINY), &tag(m, "from_ortho"));
        }
        // gradient with and without scaling
        for k in 0..4 {
            let d: Vec<usize> = match k {
                0 => (0..nd).map(|_| rng.range(0, 1)).collect(),
                3 => {
                    let hi = rng.below(nd);
                    (0..nd).map(|i| if i == hi { rng.range(4, 6) } else { rng.range(0, 2) }).collect()
                }
                _ => (0..nd).map(|_| rng.range(0, 3)).collect(),
            };
            let scale: Option<Vec<A>> = if k == 1 { None } else { Some(scaling::<A>(rng, nd)) };
            let mut r = lift::<A, S>(&v);
            for ax in (0..nd).rev() {
                r = apply(r, c.kinds[ax], c.ns[ax], &format!("gradient{}", d[ax]), ax);
            }
            let mut want: ArrayD<S> = lower(r);
            if let Some(s) = &scale {
                let q: f64 = s.iter().zip(&d).map(|(s, d)| s.f().powi(*d as i32)).product();
                want.mapv_inplace(|z| {
                    let (a, b) = z.parts();
                    S::make(a / q, b / q)
                });
            }
            for par in [false, true] {
                let got = c.obj.gradient(v.view(), &d, scale.as_deref(), par);
                let tol = eps * 32. * maxabs(&want) + A::TINY;
                let shown = scale.as_ref().map(|s| s.iter().map(|x| x.f()).collect::<Vec<_>>());
                die(ctx, near(&got, &want, tol), &format!("{} gradient {d:?} scale {shown:?} par={par}", c.name));
            }
            ctx.seen(&format!("{} {} gradient {d:?} scaled={}", <A as Scal>::NAME, c.name, scale.is_some()));
        }
        ctx.seen(&format!("{} {} style={}", <A as Scal>::NAME, c.name, STYLES[self.style]));
    }
}

/// Real-real spaces also carry complex coefficients
fn complex_on_real<SP, const N: usize>(ctx: &mut Ctx, rng: &mut Rng, s: &SP, kinds: &[Kind], ns: &[usize])
where
    SP: BaseSpace<f64, N> + BaseSpaceGradient<f64, f64, N> + BaseSpaceFromOrtho<f64, f64, N>
        + BaseSpaceGradient<f64, Complex<f64>, N> + BaseSpaceFromOrtho<f64, Complex<f64>, N>,
    ndarray::Dim<[usize; N]>: ndarray::Dimension,
{
    type A = f64;
    type Z = Complex<A>;
    type Nd<T, const N: usize> = ndarray::Array<T, ndarray::Dim<[usize; N]>>;
    let v: Nd<Z, N> = fill(rng, &s.shape_spectral(), 0).into_dimensionality().unwrap();
    let (re, im) = (v.mapv(|z| z.re), v.mapv(|z| z.im));
    let d: [usize; N] = std::array::from_fn(|_| rng.range(0, 3));
    let sc: [A; N] = scaling::<A>(rng, N).try_into().unwrap();
    let sc = if rng.coin() { Some(sc) } else { None };
    let name = format!("{kinds:?} {ns:?}");
    let join = |a: Nd<A, N>, b: Nd<A, N>| ndarray::Zip::from(&a).and(&b).map_collect(|x, y| Complex::new(*x, *y)).into_dyn();
    let eps = A::EPS * 4096.;
    let g = growth(kinds, ns);
    type G<SP, T, const N: usize> = fn(&SP, &Nd<T, N>, [usize; N], Option<[A; N]>) -> Nd<T, N>;
    let rg: G<SP, A, N> = |s, v, d, c| BaseSpaceGradient::<A, A, N>::gradient(s, v, d, c);
    let want = join(rg(s, &re, d, sc), rg(s, &im, d, sc));
    let all: [(&str, G<SP, Z, N>); 2] = [
        ("serial", |s, v, d, c| BaseSpaceGradient::<A, Z, N>::gradient(s, v, d, c)),
        ("parallel", |s, v, d, c| BaseSpaceGradient::<A, Z, N>::gradient_par(s, v, d, c)),
    ];
    for (how, f) in all {
        let got = f(s, &v, d, sc).into_dyn();
        die(ctx, near(&got, &want, eps * maxabs(&want) + A::TINY), &format!("complex gradient {d:?} ({how}) on real space {name}"));
    }
    type F<SP, T, const N: usize> = fn(&SP, &Nd<T, N>, [usize; N]) -> Nd<T, N>;
    macro_rules! four {
        ($a:ident, $b:ident, $c:ident, $d:ident) => {{
            let r: F<SP, A, N> = |s, v, _| BaseSpaceFromOrtho::<A, A, N>::$a(s, v);
            let all: [(&str, F<SP, Z, N>); 4] = [
                ("serial", |s, v, _| BaseSpaceFromOrtho::<A, Z, N>::$a(s, v)),
                ("parallel", |s, v, _| BaseSpaceFromOrtho::<A, Z, N>::$b(s, v)),
                ("in place", |s, v, o| {
                    let mut o: Nd<Z, N> = s.ndarray_from_shape(o);
                    o.fill(Scal::nan());
                    BaseSpaceFromOrtho::<A, Z, N>::$c(s, v, &mut o);
                    o
                }),
                ("parallel in place", |s, v, o| {
                    let mut o: Nd<Z, N> = s.ndarray_from_shape(o);
                    o.fill(Scal::nan());
                    BaseSpaceFromOrtho::<A, Z, N>::$d(s, v, &mut o);
                    o
                }),
            ];
            (r, all)
        }};
    }
    let (r, all) = four!(to_ortho, to_ortho_par, to_ortho_inplace, to_ortho_inplace_par);
    let so = s.shape_spectral_ortho();
    let want = join(r(s, &re, so), r(s, &im, so));
    for (how, f) in all {
        die(ctx, near(&f(s, &v, so).into_dyn(), &want, eps * maxabs(&want)), &format!("complex to_ortho ({how}) on real space {name}"));
    }
    let u: Nd<Z, N> = fill(rng, &so, 0).into_dimensionality().unwrap();
    let (re, im) = (u.mapv(|z| z.re), u.mapv(|z| z.im));
    let (r, all) = four!(from_ortho, from_ortho_par, from_ortho_inplace, from_ortho_inplace_par);
    let ss = s.shape_spectral();
    let want = join(r(s, &re, ss), r(s, &im, ss));
    for (how, f) in all {
        die(ctx, near(&f(s, &u, ss).into_dyn(), &want, (eps * g).min(1e-2) * maxabs(&want)), &format!("complex from_ortho ({how}) on real space {name}"));
    }
    ctx.seen(&format!("complex on real {} {name}", <A as Scal>::NAME));
}

fn complex_spaces(ctx: &mut Ctx, rng: &mut Rng) {
    let ty = *rng.pick(&[0usize, 3, 7]);
    let (kinds, ns) = pick(rng, ty, [60, 18, 10][TYPES[ty].len() - 1]);
    let b: Vec<_> = kinds.iter().zip(&ns).map(|(k, n)| r2r::<f64>(*k, *n)).collect();
    match b.len() {
        1 => complex_on_real(ctx, rng, &Space1::new(&b[0]), &kinds, &ns),
        2 => complex_on_real(ctx, rng, &Space2::new(&b[0], &b[1]), &kinds, &ns),
        _ => complex_on_real(ctx, rng, &Space3::new(&b[0], &b[1], &b[2]), &kinds, &ns),
    }
}

fn c09_type<A: Real>(ctx: &mut Ctx)
where
    Complex<A>: Scal,
{
    let reps = if ctx.thorough() { 1500 } else { 250 };
    for rep in 0..reps {
        for ty in 0..A::SPACES {
            if let Some(seed) = ctx.begin(&format!("C09 {} type={ty} rep={rep}", <A as Scal>::NAME)) {
                let mut rng = Rng::new(seed);
                let max = match TYPES[ty].len() {
                    1 => 60,
                    2 => 22,
                    _ => 11,
                };
                let (kinds, ns) = pick(&mut rng, ty, max);
                let style = rng.below(9);
                let mut v = Tensor { ctx, rng, style };
                visit_space::<A, _>(&kinds, &ns, &mut v);
            }
        }
        if let Some(seed) = ctx.begin(&format!("C09 {} complex rep={rep}", <A as Scal>::NAME)) {
            complex_spaces(ctx, &mut Rng::new(seed));
        }
        if ctx.out_of_time() {
            return;
        }
    }
}

pub fn c09(ctx: &mut Ctx) {
    matrices(ctx);
    metadata(ctx);
    c09_type::<f64>(ctx);
    c09_type::<f32>(ctx);
}

macro_rules! per_space {
    ($ctx:expr, $name:literal, $reps:expr, $max:expr, $vis:ident) => {{
        let ctx: &mut Ctx = $ctx;
        for rep in 0..$reps {
            for ty in 0..TYPES.len() {
                if let Some(seed) = ctx.begin(&format!("{} {} space type={ty} rep={rep}", ctx.prop.clone(), $name)) {
                    let mut rng = Rng::new(seed);
                    let max: [usize; 3] = $max;
                    let (kinds, ns) = pick(&mut rng, ty, max[TYPES[ty].len() - 1]);
                    if rep % 4 == 3 && ty < <f32 as Real>::SPACES {
                        visit_space::<f32, _>(&kinds, &ns, &mut $vis { ctx, rng });
                    } else {
                        visit_space::<f64, _>(&kinds, &ns, &mut $vis { ctx, rng });
                    }
                }
            }
        }
    }};
}

// ---- C02
struct Round<'a> {
    ctx: &'a mut Ctx,
    rng: Rng,
}
impl<A: Real> SpaceVisitor<A> for Round<'_>
where
    Complex<A>: Scal,
{
    fn visit<P: Scal, S: Scal>(&mut self, c: &Case<A, P, S>) {
        let (ctx, rng) = (&mut *self.ctx, &mut self.rng);
        let (m1, m2) = (*rng.pick(&MODES), *rng.pick(&MODES));
        let f: ArrayD<P> = fill(rng, &c.obj.phys(), rng.clone().below(9));
        // the field the space can represent
        let h = c.obj.forward(f.view(), m1, None);
        let f1 = c.obj.backward(h.view(), m2, None);
        let nodes: f64 = c.ns.iter().map(|n| *n as f64).product();
        let comp = c.kinds.iter().any(|k| !k.bcs().is_empty());
        let tol = A::EPS * 400. * nodes.sqrt() * if comp { nodes } else { 1. };
        let what = format!("{} {m1:?}/{m2:?}", c.name);
        if !comp {
            die(ctx, near(&f1, &f, tol * maxabs(&f) + A::TINY), &format!("{what}: backward(forward(f))"));
        }
        let h2 = c.obj.forward(f1.view(), m1, None);
        let f2 = c.obj.backward(h2.view(), m2, None);
        let s = maxabs(&f1).max(maxabs(&f)) + A::TINY;
        die(ctx, near(&f2, &f1, tol.min(cap::<A>(&c.kinds, &c.ns)) * s), &format!("{what}: fields after one and two round trips"));
        let g = growth(&c.kinds, &c.ns);
        if A::EPS * 400. * nodes * g * g < 1e-4 {
            die(ctx, near(&h2, &h, A::EPS * 400. * nodes * g * g * maxabs(&h).max(s)), &format!("{what}: forward(backward(h))"));
            ctx.count("coefficientwise", 1);
        }
        ctx.seen(&format!("{} {} {m1:?}/{m2:?}", <A as Scal>::NAME, c.name));
    }
}
pub fn roundtrips(ctx: &mut Ctx) {
    let reps = if ctx.thorough() { 1500 } else { 250 };
    per_space!(ctx, "roundtrip", reps, [200, 40, 16], Round);
}

// ---- C03
struct Walls<'a> {
    ctx: &'a mut Ctx,
    rng: Rng,
}
impl<A: Real> SpaceVisitor<A> for Walls<'_>
where
    Complex<A>: Scal,
{
    fn visit<P: Scal, S: Scal>(&mut self, c: &Case<A, P, S>) {
        let (ctx, rng) = (&mut *self.ctx, &mut self.rng);
        let m = *rng.pick(&MODES);
        let f: ArrayD<P> = fill(rng, &c.obj.phys(), rng.clone().below(9));
        let h = if rng.coin() { c.obj.forward(f.view(), m, None) } else { fill(rng, &c.obj.spec(), 0) };
        let g = c.obj.backward(h.view(), m, None);
        let o = c.obj.to_ortho(h.view(), m, None);
        let nodes: f64 = c.ns.iter().map(|n| *n as f64).product();
        for (ax, k) in c.kinds.iter().enumerate() {
            for &(d, right) in k.bcs() {
                let n = c.ns[ax];
                if d == 0 {
                    let wall = g.index_axis(Axis(ax), if right { n - 1 } else { 0 });
                    let w = wall.iter().fold(0f64, |m, v| m.max(v.mag()));
                    let tol = A::EPS * 200. * nodes * maxabs(&g).max(maxabs(&o)) + A::TINY;
                    ctx.check(w <= tol, || format!("{} axis {ax}: value {w:e} at the wall, tolerance {tol:e}", c.name));
                }
                // in coefficients, for every lane
                for l in o.lanes(Axis(ax)) {
                    let (mut a, mut b, mut t) = (0., 0., 0.);
                    for (q, v) in l.iter().enumerate() {
                        let w = oracle::t_end(q, d, right);
                        let (x, y) = v.parts();
                        a += w * x;
                        b += w * y;
                        t += w.abs() * v.mag();
                    }
                    let hm = maxabs(&h) * oracle::t_end(n - 1, d, true);
                    let tol = A::EPS * 300. * n as f64 * (t + hm) + A::TINY;
                    ctx.check(f64::hypot(a, b) <= tol, || format!("{} axis {ax}: derivative {d} at the wall is {:e}, tolerance {tol:e}", c.name, f64::hypot(a, b)));
                }
                ctx.seen(&format!("wall {} {} axis={ax} d={d} right={right}", <A as Scal>::NAME, c.name));
            }
        }
    }
}
pub fn walls(ctx: &mut Ctx) {
    let reps = if ctx.thorough() { 1000 } else { 250 };
    per_space!(ctx, "walls", reps, [100, 30, 14], Walls);
}

// ---- C06 / C09: matrices per axis
struct Mats<'a> {
    ctx: &'a mut Ctx,
    rng: Rng,
}
impl<A: Real> SpaceVisitor<A> for Mats<'_>
where
    Complex<A>: Scal,
{
    fn visit<P: Scal, S: Scal>(&mut self, c: &Case<A, P, S>) {
        let ctx = &mut *self.ctx;
        let _ = &self.rng;
        for (ax, (k, &n)) in c.kinds.iter().zip(&c.ns).enumerate() {
            let base = A::base(*k, n, Make::Struct);
            let b = base.el();
            let (s, si) = (b.stencil(), b.stencil_inv());
            let same = |a: &Array2<A>, b: &Array2<A>, what: &str| {
                ctx.check(a.shape() == b.shape() && bits_eq(a.iter(), b.iter()).is_none(), || {
                    format!("{} axis {ax}: {what} is not the one of the base of this axis", c.name)
                });
            };
            same(&c.obj.stencil(ax), &s, "stencil");
            same(&c.obj.stencil_inv(ax), &si, "stencil_inv");
            if n >= 3 || matches!(k, Kind::R2c | Kind::C2c) {
                let (l, (p, i)) = (b.laplacian(), b.laplacian_pinv());
                same(&c.obj.laplacian(ax), &l, "laplacian");
                let (p2, i2) = c.obj.laplacian_pinv(ax);
                same(&p2, &p, "laplacian_pinv.0");
                same(&i2, &i, "laplacian_pinv.1");
            }
            ctx.seen(&format!("matrices {} {} axis={ax}", <A as Scal>::NAME, c.name));
        }
    }
}
pub fn matrices(ctx: &mut Ctx) {
    let reps = if ctx.thorough() { 300 } else { 80 };
    per_space!(ctx, "matrices", reps, [60, 30, 14], Mats);
}

// ---- C12
struct Grid<'a> {
    ctx: &'a mut Ctx,
    rng: Rng,
}
impl<A: Real> SpaceVisitor<A> for Grid<'_>
where
    Complex<A>: Scal,
{
    fn visit<P: Scal, S: Scal>(&mut self, c: &Case<A, P, S>) {
        let ctx = &mut *self.ctx;
        let _ = &self.rng;
        let all = c.obj.coords();
        ctx.check(all.len() == c.ns.len(), || format!("{}: {} coordinate axes", c.name, all.len()));
        for (ax, (k, &n)) in c.kinds.iter().zip(&c.ns).enumerate() {
            crate::p_transform::c12_one::<A>(ctx, *k, n, &all[ax], &format!("{} coords[{ax}]", c.name));
            crate::p_transform::c12_one::<A>(ctx, *k, n, &c.obj.coords_axis(ax), &format!("{} coords_axis({ax})", c.name));
        }
    }
}
pub fn coords(ctx: &mut Ctx) {
    let reps = if ctx.thorough() { 300 } else { 80 };
    per_space!(ctx, "coords", reps, [300, 100, 40], Grid);
}

// ---- C22
struct Meta<'a> {
    ctx: &'a mut Ctx,
    rng: Rng,
}
impl<A: Real> SpaceVisitor<A> for Meta<'_>
where
    Complex<A>: Scal,
{
    fn visit<P: Scal, S: Scal>(&mut self, c: &Case<A, P, S>) {
        let (ctx, rng) = (&mut *self.ctx, &mut self.rng);
        for (ax, k) in c.kinds.iter().enumerate() {
            let (b, t) = c.obj.kind(ax);
            crate::p_nd::check_kind(ctx, *k, b, t, &format!("{} axis {ax}", c.name));
        }
        let spec: Vec<usize> = c.kinds.iter().zip(&c.ns).map(|(k, n)| k.len_spec(*n)).collect();
        let orth: Vec<usize> = c.kinds.iter().zip(&c.ns).map(|(k, n)| k.len_orth(*n)).collect();
        let ok = |ctx: &Ctx, got: &[usize], want: &[usize], what: &str| {
            ctx.check(got == want, || format!("{}: {what} has shape {got:?} expected {want:?}", c.name));
        };
        ok(ctx, &c.obj.phys(), &c.ns, "shape_physical");
        ok(ctx, &c.obj.spec(), &spec, "shape_spectral");
        ok(ctx, &c.obj.orth(), &orth, "shape_spectral_ortho");
        let (p, s) = (c.obj.nd_phys(), c.obj.nd_spec());
        let any: Vec<usize> = (0..c.ns.len()).map(|_| rng.range(0, 5)).collect();
        let x = c.obj.nd_shape(&any);
        ok(ctx, p.shape(), &c.ns, "ndarray_physical");
        ok(ctx, s.shape(), &spec, "ndarray_spectral");
        ok(ctx, x.shape(), &any, "ndarray_from_shape");
        let z = p.iter().all(|v| v.parts() == (0., 0.)) && s.iter().chain(x.iter()).all(|v| v.parts() == (0., 0.));
        ctx.check(z, || format!("{}: allocated array is not zero", c.name));
        for m in [Mode::Alloc, Mode::AllocPar] {
            ok(ctx, c.obj.forward(p.view(), m, None).shape(), &spec, "forward");
            ok(ctx, c.obj.backward(s.view(), m, None).shape(), &c.ns, "backward");
            ok(ctx, c.obj.to_ortho(s.view(), m, None).shape(), &orth, "to_ortho");
            let o: ArrayD<S> = ArrayD::from_elem(IxDyn(&orth), S::make(0., 0.));
            ok(ctx, c.obj.from_ortho(o.view(), m, None).shape(), &spec, "from_ortho");
            let d: Vec<usize> = c.ns.iter().map(|_| rng.range(0, 2)).collect();
            ok(ctx, c.obj.gradient(s.view(), &d, None, m == Mode::AllocPar).shape(), &orth, "gradient");
        }
        ctx.seen(&format!("space {} {}", <A as Scal>::NAME, c.name));
    }
}
pub fn metadata(ctx: &mut Ctx) {
    let reps = if ctx.thorough() { 400 } else { 120 };
    per_space!(ctx, "metadata", reps, [100, 30, 14], Meta);
}

// ---- C08: inputs and outputs of spaces
struct Kept<'a> {
    ctx: &'a mut Ctx,
    rng: Rng,
}
impl<A: Real> SpaceVisitor<A> for Kept<'_>
where
    Complex<A>: Scal,
{
    fn visit<P: Scal, S: Scal>(&mut self, c: &Case<A, P, S>) {
        let (ctx, rng) = (&mut *self.ctx, &mut self.rng);
        let f: ArrayD<P> = fill(rng, &c.obj.phys(), 0);
        let h: ArrayD<S> = fill(rng, &c.obj.spec(), 0);
        let o: ArrayD<S> = fill(rng, &c.obj.orth(), 0);
        let (kf, kh, ko) = (f.clone(), h.clone(), o.clone());
        for (a, b) in [(Mode::Alloc, Mode::Inplace), (Mode::AllocPar, Mode::InplacePar)] {
            // old data in the target must not shine through
            macro_rules! pair {
                ($op:ident, $in:expr, $t:ty) => {{
                    let want = c.obj.$op($in.view(), a, None);
                    for _ in 0..2 {
                        let dirty: ArrayD<$t> = dirt(rng, want.shape());
                        let got = c.obj.$op($in.view(), b, Some(dirty));
                        if let Some(e) = alike(&got, &want, &$in, c) {
                            ctx.fail(&format!("{} {} into old data: {e}", c.name, stringify!($op)));
                        }
                    }
                    // an output in column-major order: refused or right
                    let mut t = want.shape().to_vec();
                    t.reverse();
                    let turned = dirt::<$t>(rng, &t).reversed_axes();
                    match crate::quiet(|| c.obj.$op($in.view(), b, Some(turned))) {
                        Ok(got) => {
                            if let Some(e) = alike(&got, &want, &$in, c) {
                                ctx.fail(&format!("{} {} into a column-major output: {e}", c.name, stringify!($op)));
                            }
                        }
                        Err(_) => ctx.count("refused_layouts", 1),
                    }
                }};
            }
            pair!(forward, f, S);
            pair!(backward, h, P);
            pair!(to_ortho, h, S);
            pair!(from_ortho, o, S);
            let d: Vec<usize> = c.ns.iter().map(|_| 1).collect();
            let want = c.obj.gradient(h.view(), &d, None, a == Mode::AllocPar);
            // other memory layouts: refused or right
            if c.ns.iter().chain(&c.obj.spec()).chain(&c.obj.orth()).all(|k| *k > 1) {
                let how = rng.below(crate::p_nd::RELAID);
                macro_rules! relaid {
                    ($op:ident, $in:expr) => {{
                        let x = crate::p_nd::relaid(&$in, how);
                        let want = c.obj.$op($in.view(), a, None);
                        match crate::quiet(|| c.obj.$op(x.read(), a, None)) {
                            Ok(g) => {
                                if let Some(e) = alike(&g, &want, &$in, c) {
                                    ctx.fail(&format!("{} {} of an array laid out {how}: {e}", c.name, stringify!($op)));
                                }
                            }
                            Err(_) => ctx.count("refused_layouts", 1),
                        }
                    }};
                }
                relaid!(forward, f);
                relaid!(backward, h);
                relaid!(to_ortho, h);
                relaid!(from_ortho, o);
                let x = crate::p_nd::relaid(&h, how);
                match crate::quiet(|| c.obj.gradient(x.read(), &d, None, a == Mode::AllocPar)) {
                    Ok(g) => {
                        if let Some(e) = alike(&g, &want, &h, c) {
                            ctx.fail(&format!("{} gradient of an array laid out {how}: {e}", c.name));
                        }
                    }
                    Err(_) => ctx.count("refused_layouts", 1),
                }
            }
        }
        ctx.check(bits_eq(f.iter(), kf.iter()).is_none() && bits_eq(h.iter(), kh.iter()).is_none() && bits_eq(o.iter(), ko.iter()).is_none(), || {
            format!("{}: an operation modified its input", c.name)
        });
        ctx.seen(&format!("space {} {}", <A as Scal>::NAME, c.name));
    }
}
pub fn inputs_kept(ctx: &mut Ctx) {
    let reps = if ctx.thorough() { 400 } else { 120 };
    per_space!(ctx, "kept", reps, [100, 30, 14], Kept);
}

// ---- C07
struct Par<'a> {
    ctx: &'a mut Ctx,
    rng: Rng,
    pools: &'a [(usize, rayon::ThreadPool)],
}
impl<A: Real> SpaceVisitor<A> for Par<'_>
where
    Complex<A>: Scal,
{
    fn visit<P: Scal, S: Scal>(&mut self, c: &Case<A, P, S>) {
        let (ctx, rng) = (&mut *self.ctx, &mut self.rng);
        let f: ArrayD<P> = fill(rng, &c.obj.phys(), rng.clone().below(9));
        let h: ArrayD<S> = fill(rng, &c.obj.spec(), rng.clone().below(9));
        let o: ArrayD<S> = fill(rng, &c.obj.orth(), rng.clone().below(9));
        let d: Vec<usize> = c.ns.iter().map(|_| rng.range(0, 2)).collect();
        let sc: Vec<A> = scaling::<A>(rng, c.ns.len());
        // four of the six pools
        let skip = rng.below(self.pools.len());
        for (t, pool) in self.pools.iter().enumerate().filter(|(k, _)| (k + skip) % self.pools.len() > 1).map(|(_, p)| p) {
            macro_rules! pair {
                ($op:ident, $in:expr) => {{
                    let want = c.obj.$op($in.view(), Mode::Alloc, None);
                    for m in [Mode::AllocPar, Mode::InplacePar] {
                        let got = pool.install(|| c.obj.$op($in.view(), m, None));
                        if let Some(e) = alike(&got, &want, &$in, c) {
                            ctx.fail(&format!("{} {} {m:?} with {t} threads: {e}", c.name, stringify!($op)));
                        }
                    }
                }};
            }
            pair!(forward, f);
            pair!(backward, h);
            pair!(to_ortho, h);
            pair!(from_ortho, o);
            for s in [None, Some(&sc[..])] {
                let want = c.obj.gradient(h.view(), &d, s, false);
                let got = pool.install(|| c.obj.gradient(h.view(), &d, s, true));
                if let Some(e) = alike(&got, &want, &h, c) {
                    ctx.fail(&format!("{} gradient {d:?} with {t} threads: {e}", c.name));
                }
            }
            ctx.count("parallel_runs", 10);
        }
        ctx.seen(&format!("space {} {}", <A as Scal>::NAME, c.name));
    }
}
pub fn parallel(ctx: &mut Ctx, pools: &[(usize, rayon::ThreadPool)]) {
    let reps = if ctx.thorough() { 300 } else { 60 };
    for rep in 0..reps {
        for ty in 0..TYPES.len() {
            if let Some(seed) = ctx.begin(&format!("C07 space type={ty} rep={rep}")) {
                let mut rng = Rng::new(seed);
                let (kinds, ns) = pick(&mut rng, ty, [200, 40, 14][TYPES[ty].len() - 1]);
                if rep % 4 == 3 && ty < <f32 as Real>::SPACES {
                    visit_space::<f32, _>(&kinds, &ns, &mut Par { ctx, rng, pools });
                } else {
                    visit_space::<f64, _>(&kinds, &ns, &mut Par { ctx, rng, pools });
                }
            }
        }
    }
}

