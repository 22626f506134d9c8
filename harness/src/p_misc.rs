//! C13 (linearity) and C21 (comparison and array helpers).
use fsmon::ctx::Ctx;
use fsmon::gen::{sizes, vec_of, Rng, STYLES};
use fsmon::nd::{visit_kind, Op1, OpVisitor};
use fsmon::num::{tiny, Real, Scal};
use fsmon::oracle::Kind;
use fsmon::spaces::find_op;
use funspace::types::FloatNum;
use funspace::utils::{approx_eq, approx_eq_complex, approx_eq_complex_ndarray, approx_eq_ndarray, array_resized_axis, check_array_axis};
use ndarray::{Array, ArrayD, IxDyn};
use num_complex::Complex;

use crate::p_nd::{relaid, RELAID};
use crate::quiet;

// ------------------------------------------------------------------ C13

fn mul<T: Scal>(a: T, x: T) -> T {
    let ((p, q), (r, s)) = (a.parts(), x.parts());
    T::make(p * r - q * s, p * s + q * r)
}

struct C13<'a> {
    ctx: &'a mut Ctx,
    rng: Rng,
    grow: f64,
}

impl OpVisitor for C13<'_> {
    fn visit<TI: Scal, TO: Scal>(&mut self, op: &Op1<TI, TO>) {
        let (ctx, rng) = (&mut *self.ctx, &mut self.rng);
        let (s1, s2) = (rng.below(STYLES.len()), rng.below(STYLES.len()));
        // far from one in size, too
        let most = *rng.pick(if TO::SEPS > 1e-10 { &[6, 6, 8, 12] } else { &[6, 6, 40, 100] });
        let x: Vec<TI> = vec_of(rng, op.nin, s1, most);
        let y: Vec<TI> = vec_of(rng, op.nin, s2, most);
        // powers of two keep the scaling itself exact; complex factors where
        // both sides are complex
        let cplx = TI::COMPLEX && TO::COMPLEX;
        let f = |rng: &mut Rng| {
            let s = if rng.coin() { 1. } else { -1. };
            let m = s * 2f64.powi(rng.range(0, 6) as i32 - 3);
            if cplx && rng.coin() { (0., m) } else { (m, 0.) }
        };
        let (a, b) = (f(rng), f(rng));
        let z: Vec<TI> = x.iter().zip(&y).map(|(p, q)| mul(TI::make(a.0, a.1), *p) + mul(TI::make(b.0, b.1), *q)).collect();
        let (rx, ry, rz) = (op.run(&x), op.run(&y), op.run(&z));
        // rounding is measured against the response to the absolute sizes of
        // the input: transforms by the norm, derivatives entry by entry
        let m = rx.iter().chain(&ry).chain(&rz).fold(0f64, |m, v| m.max(v.mag()));
        let nin = x.iter().chain(&y).fold(0f64, |m, v| m.max(v.mag()));
        let amp = 1. + a.0.abs().max(a.1.abs()) + b.0.abs().max(b.1.abs());
        let deriv = op.name.strip_prefix("gradient").map_or(0, |d| d.parse::<i32>().unwrap());
        let nn = op.n as f64 + 1.;
        let gain = match op.name.as_str() {
            "forward" if !matches!(op.kind, Kind::R2c | Kind::C2c) => self.grow,
            "forward" => nn,
            "from_ortho" => self.grow,
            "backward" if matches!(op.kind, Kind::R2c | Kind::C2c) => 1.,
            _ => nn,
        };
        let tol = TO::SEPS * 512. * amp * (m * (1. + 0.2 * self.grow * f64::from(u8::from(gain == self.grow))) + nin * gain * nn.powi(2 * deriv)) + tiny(TO::SEPS);
        let tol = if deriv == 0 && op.kind.bcs().len() > 0 { tol.min(5e-2 * amp * m.max(nin)) } else { tol };
        for i in 0..rz.len() {
            let want = mul(TO::make(a.0, a.1), rx[i]) + mul(TO::make(b.0, b.1), ry[i]);
            let ((p, q), (r, s)) = (rz[i].parts(), want.parts());
            ctx.check((p - r).abs() <= tol && (q - s).abs() <= tol, || {
                format!("{}: op({a:?}x + {b:?}y) [{i}] = {:?} but {a:?}op(x) + {b:?}op(y) = {want:?} (tolerance {tol:e})", op.label(), rz[i])
            });
        }
        // zero in, zero out
        let zero = op.run(&vec![TI::make(0., 0.); op.nin]);
        ctx.check(zero.iter().all(|v| v.parts().0 == 0. && v.parts().1 == 0.), || format!("{}: zero input gives {zero:?}", op.label()));
        // exact homogeneity under powers of two
        let k = 2f64.powi(rng.range(0, 8) as i32 - 4);
        let sx: Vec<TI> = x.iter().map(|v| mul(TI::make(k, 0.), *v)).collect();
        let rs = op.run(&sx);
        for i in 0..rs.len() {
            let ((p, q), (r, s)) = (rs[i].parts(), rx[i].parts());
            let t = TO::SEPS * 64. * (1. + self.grow) * k * (m + nin * nn.powi(2 * deriv));
            ctx.check((p - k * r).abs() <= t && (q - k * s).abs() <= t, || format!("{}: op({k} x)[{i}] = {:?} but op(x) = {:?}", op.label(), rs[i], rx[i]));
        }
        ctx.seen(&format!("{} {}+{} {a:?} {b:?}", op.label(), STYLES[s1], STYLES[s2]));
    }
}

/// Real operators act on real and imaginary parts separately
fn parts_separate<A: Real>(ctx: &mut Ctx, kind: Kind, n: usize, seed: u64)
where
    Complex<A>: Scal,
{
    let mut rng = Rng::new(seed);
    for name in ["to_ortho", "from_ortho", "gradient1", "gradient2"] {
        let c = find_op::<A, Complex<A>, Complex<A>>(kind, n, name).unwrap();
        let r = find_op::<A, A, A>(kind, n, name).unwrap();
        let style = rng.below(STYLES.len());
        let re: Vec<A> = vec_of(&mut rng, c.nin, style, 6);
        let im: Vec<A> = {
            let s = rng.below(STYLES.len());
            vec_of(&mut rng, c.nin, s, 6)
        };
        let z: Vec<Complex<A>> = re.iter().zip(&im).map(|(a, b)| Complex::new(*a, *b)).collect();
        let (rz, rr, ri) = (c.run(&z), r.run(&re), r.run(&im));
        let m = |v: &[A]| v.iter().fold(0f64, |m, x| m.max(x.f().abs()));
        let g = crate::p_transform::cond(kind, n).sqrt();
        let (tr, ti) = (A::EPS * 512. * g * m(&rr) + A::TINY, A::EPS * 512. * g * m(&ri) + A::TINY);
        for i in 0..rz.len() {
            let (p, q) = rz[i].parts();
            ctx.check((p - rr[i].f()).abs() <= tr && (q - ri[i].f()).abs() <= ti, || {
                format!("{}: element {i} of a complex vector gives {:?}, its parts give {} and {}", c.label(), rz[i], rr[i], ri[i])
            });
        }
        ctx.seen(&format!("parts {kind:?} n={n} {name} {} {}", <A as Scal>::NAME, STYLES[style]));
    }
}

fn c13_type<A: Real>(ctx: &mut Ctx)
where
    Complex<A>: Scal,
{
    let mut rng = Rng::new(ctx.seed);
    let (dense, max, extra, reps) = if ctx.thorough() { (500, 2049, 80, 20) } else { (200, 600, 20, 8) };
    for kind in Kind::ALL {
        for n in sizes(&mut rng, kind.min_n(), dense, max, extra) {
            // single precision leaves no digits in the banded solves of large sizes
            if A::EPS > 1e-10 && kind.bcs().len() == 4 && n > 128 {
                continue;
            }
            for rep in 0..reps {
                if let Some(seed) = ctx.begin(&format!("C13 {kind:?} {} n={n} rep={rep}", <A as Scal>::NAME)) {
                    let grow = crate::p_transform::cond(kind, n).sqrt();
                    let mut v = C13 { ctx, rng: Rng::new(seed), grow };
                    visit_kind::<A, _>(kind, n, rep % 2 == 1, &[1, 2], &mut v);
                    if !matches!(kind, Kind::R2c | Kind::C2c) {
                        parts_separate::<A>(ctx, kind, n, seed);
                    }
                }
                if ctx.out_of_time() {
                    return;
                }
            }
        }
    }
}

pub fn c13(ctx: &mut Ctx) {
    c13_type::<f64>(ctx);
    c13_type::<f32>(ctx);
}

// ------------------------------------------------------------------ C21

const TOL: f64 = 1e-3;

/// A difference clearly below or clearly above the documented tolerance
fn delta(rng: &mut Rng, big: bool) -> f64 {
    let s = if rng.coin() { 1. } else { -1. };
    s * if big {
        match rng.below(4) {
            0 => TOL * 1.01,
            1 => TOL * (1.1 + rng.unit()),
            2 => 10f64.powf(6. * rng.unit() - 2.9),
            _ => 5.,
        }
    } else {
        match rng.below(4) {
            0 => 0.,
            1 => TOL * 0.98,
            2 => TOL * 0.9 * rng.unit(),
            _ => 1e-9,
        }
    }
}

fn c21_type<A: Real + FloatNum>(ctx: &mut Ctx)
where
    Complex<A>: Scal,
{
    let reps = if ctx.thorough() { 400_000 } else { 100_000 };
    for rep in 0..reps {
        let Some(seed) = ctx.begin(&format!("C21 {} rep={rep}", <A as Scal>::NAME)) else { continue };
        let mut rng = Rng::new(seed);
        let d = rng.range(1, 3);
        let s: Vec<usize> = (0..d).map(|_| rng.range(1, 6)).collect();
        let n: usize = s.iter().product();
        // how many entries are off, and in which part
        let off = match rng.below(4) {
            0 => 0,
            1 | 2 => 1,
            _ => rng.range(1, n),
        };
        let mut idx: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            idx.swap(i, rng.below(i + 1));
        }
        let bad = &idx[..off];
        let special = rng.below(12);
        // values of moderate size: the subtraction stays exact enough
        let a: Vec<(f64, f64)> = (0..n).map(|_| (rng.sym(), rng.sym())).collect();
        // one entry far above the others, where only clear differences count
        let mut a = a;
        let large = if rng.below(3) == 0 { Some(rng.below(n)) } else { None };
        if let Some(k) = large {
            let size = 10f64.powi(rng.range(1, 7) as i32);
            // exact in either precision
            a[k] = ((a[k].0 * size).round(), (a[k].1 * size).round());
        }
        let mut b = a.clone();
        let mut bc = a.clone();
        for i in 0..n {
            let is_bad = bad.contains(&i);
            if large == Some(i) {
                let clear = if is_bad { 4. } else { 0. };
                b[i].0 += clear;
                let part = rng.below(3);
                bc[i].0 -= if part != 1 { clear } else { 0. };
                bc[i].1 += if part != 0 { clear } else { 0. };
                continue;
            }
            b[i].0 += delta(&mut rng, is_bad);
            let part = rng.below(3);
            bc[i].0 += delta(&mut rng, is_bad && part != 1);
            bc[i].1 += delta(&mut rng, is_bad && part != 0);
        }
        let mut unequal = off > 0;
        if special == 0 {
            // not-a-number is never approximately equal to anything
            b[idx[0]].0 = f64::NAN;
            if rng.coin() {
                bc[idx[0]].0 = f64::NAN;
            } else {
                bc[idx[0]].1 = f64::NAN;
            }
            unequal = true;
        } else if special == 1 {
            b[idx[0]].0 = f64::INFINITY;
            bc[idx[0]].1 = f64::NEG_INFINITY;
            unequal = true;
        }
        let ra: Vec<A> = a.iter().map(|v| A::r(v.0)).collect();
        let rb: Vec<A> = b.iter().map(|v| A::r(v.0)).collect();
        let ca: Vec<Complex<A>> = a.iter().map(|v| Complex::<A>::make(v.0, v.1)).collect();
        let cb: Vec<Complex<A>> = bc.iter().map(|v| Complex::<A>::make(v.0, v.1)).collect();
        let nd = |v: &[A]| ArrayD::from_shape_vec(IxDyn(&s), v.to_vec()).unwrap();
        // arrays of the same or different memory layouts
        let how = [rng.below(RELAID + 2), rng.below(RELAID + 2)];
        let lay = |v: &[A], k: usize| relaid(&nd(v), how[k]);
        let layc = |v: &[Complex<A>], k: usize| relaid(&ArrayD::from_shape_vec(IxDyn(&s), v.to_vec()).unwrap(), how[k]);
        for swap in [false, true] {
            let (x, y, cx, cy) = if swap { (&rb, &ra, &cb, &ca) } else { (&ra, &rb, &ca, &cb) };
            let res = [
                ("approx_eq", quiet(|| approx_eq(x, y)).is_err()),
                ("approx_eq_complex", quiet(|| approx_eq_complex(cx, cy)).is_err()),
                ("approx_eq_ndarray", quiet(|| approx_eq_ndarray(&lay(x, 0).read(), &lay(y, 1).read())).is_err()),
                ("approx_eq_complex_ndarray", quiet(|| approx_eq_complex_ndarray(&layc(cx, 0).read(), &layc(cy, 1).read())).is_err()),
            ];
            for (name, panicked) in res {
                ctx.check(panicked == unequal, || {
                    format!("{name}: {} {x:?} / {y:?} ({cx:?} / {cy:?}), shape {s:?}, layouts {how:?}", if panicked { "rejected" } else { "accepted" })
                });
                ctx.count(if panicked { "rejected" } else { "accepted" }, 1);
            }
        }
        // array helpers
        let axis = rng.below(d);
        let size = rng.range(0, 9);
        let arr = relaid(&nd(&ra), how[0]);
        let arr = arr.read();
        let r: ArrayD<Complex<A>> = array_resized_axis(&arr, size, axis);
        let mut w = s.clone();
        w[axis] = size;
        ctx.check(r.shape() == &w[..] && r.iter().all(|v| v.parts() == (0., 0.)), || format!("array_resized_axis({s:?}, {size}, {axis}) has shape {:?}", r.shape()));
        let fits = quiet(|| check_array_axis(&arr, size, axis, "x")).is_ok();
        ctx.check(fits == (s[axis] == size), || format!("check_array_axis({s:?}, {size}, {axis}) -> {fits}"));
        let fits = quiet(|| check_array_axis(&Array::<A, _>::zeros(s.clone()), s[axis], axis, "x")).is_ok();
        ctx.check(fits, || format!("check_array_axis({s:?}, {}, {axis}) refused", s[axis]));
        ctx.seen(&format!("{} {s:?} {how:?} off={off} special={special} axis={axis} size={size} bad={:?}", <A as Scal>::NAME, bad.first()));
    }
}

pub fn c21(ctx: &mut Ctx) {
    c21_type::<f64>(ctx);
    c21_type::<f32>(ctx);
}
