//! C10 (no out-of-bounds access whatever the lengths) and C14 (arrays of the
//! wrong size are refused).
use fsmon::ctx::Ctx;
use fsmon::gen::{vec_of, Rng, STYLES};
use fsmon::nd::{visit_kind, Make, Op1, OpVisitor};
use fsmon::num::{Real, Scal};
use fsmon::oracle::Kind;
use fsmon::spaces::{pick, visit_space, Case, SpaceVisitor, MODES, TYPES};
use ndarray::{ArrayD, IxDyn};
use num_complex::Complex;

use crate::p_nd::fill;
use crate::quiet;

fn lens(rng: &mut Rng, n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, n.saturating_sub(4), n.saturating_sub(2), n.saturating_sub(1), n, n + 1, n + 2, n + 4, 2 * n, 2 * n + 1];
    v.push(rng.range(0, 3 * n + 8));
    v.sort_unstable();
    v.dedup();
    v
}

// ------------------------------------------------------------------ C10

struct C10<'a> {
    ctx: &'a mut Ctx,
    rng: Rng,
}

impl OpVisitor for C10<'_> {
    fn visit<TI: Scal, TO: Scal>(&mut self, op: &Op1<TI, TO>) {
        let (ctx, rng) = (&mut *self.ctx, &mut self.rng);
        // every pair of lengths, exact-size heap allocations
        let (li, lo) = (lens(rng, op.nin), lens(rng, op.nout));
        let style = rng.below(STYLES.len());
        for &i in &li {
            for &o in &lo {
                if ctx.tiny() && !((i == op.nin || o == op.nout) && (i + o) % 2 == 0) && !(i == op.nin && o == op.nout) {
                    continue;
                }
                let x: Box<[TI]> = if i == 0 { Box::new([]) } else { vec_of::<TI>(rng, i, style, 6).into_boxed_slice() };
                let mut y: Box<[TO]> = vec![TO::nan(); o].into_boxed_slice();
                // an unwinding panic is a refusal; memory errors abort the process
                match quiet(|| op.slice(&x, &mut y)) {
                    Ok(()) => ctx.count("completed", 1),
                    Err(_) => ctx.count("refused", 1),
                }
                ctx.seen(&format!("{} in={i} out={o}", op.label()));
            }
        }
        // N-dimensional drivers with unrelated shapes
        for _ in 0..(if ctx.tiny() { 1 } else { 6 }) {
            let d = rng.range(1, 3);
            let axis = rng.below(d + 1);
            let good = rng.coin();
            let s: Vec<usize> = (0..d).map(|k| if k == axis && good { op.nin } else { rng.range(0, 4) }).collect();
            let mut t = s.clone();
            for (k, q) in t.iter_mut().enumerate() {
                if k == axis {
                    *q = if rng.below(3) > 0 { op.nout } else { rng.range(0, op.nout + 3) };
                } else if rng.below(4) == 0 {
                    *q = rng.range(0, 5);
                }
            }
            let a: ArrayD<TI> = fill(rng, &s, 0);
            let mut o = ArrayD::from_elem(IxDyn(&t), TO::nan());
            let par = rng.coin() && !ctx.tiny();
            let r = quiet(|| {
                op.inplace(a.view(), o.view_mut(), axis, par);
            });
            ctx.count(if r.is_ok() { "completed" } else { "refused" }, 1);
            let r = quiet(|| op.alloc(a.view(), axis, par));
            ctx.count(if r.is_ok() { "completed" } else { "refused" }, 1);
            ctx.seen(&format!("{} {s:?} -> {t:?} axis={axis}", op.label()));
        }
    }
}

struct C10Space<'a> {
    ctx: &'a mut Ctx,
    rng: Rng,
}
impl<A: Real> SpaceVisitor<A> for C10Space<'_>
where
    Complex<A>: Scal,
{
    fn visit<P: Scal, S: Scal>(&mut self, c: &Case<A, P, S>) {
        let (ctx, rng) = (&mut *self.ctx, &mut self.rng);
        let jitter = |rng: &mut Rng, s: Vec<usize>| -> Vec<usize> {
            s.iter().map(|&k| match rng.below(5) { 0 => k + 1, 1 => k.saturating_sub(1), 2 if rng.coin() => rng.range(0, k + 3), _ => k }).collect()
        };
        for _ in 0..(if ctx.tiny() { 1 } else { 8 }) {
            let m = *rng.pick(&MODES);
            let p = jitter(rng, c.obj.phys());
            let s = jitter(rng, c.obj.spec());
            let o = jitter(rng, c.obj.orth());
            let f: ArrayD<P> = fill(rng, &p, 0);
            let h: ArrayD<S> = fill(rng, &s, 0);
            let u: ArrayD<S> = fill(rng, &o, 0);
            let rs = [
                quiet(|| { c.obj.forward(f.view(), m, Some(h.clone())); }),
                quiet(|| { c.obj.backward(h.view(), m, Some(f.clone())); }),
                quiet(|| { c.obj.to_ortho(h.view(), m, Some(u.clone())); }),
                quiet(|| { c.obj.from_ortho(u.view(), m, Some(h.clone())); }),
                quiet(|| { let d: Vec<usize> = c.ns.iter().map(|_| 1).collect(); c.obj.gradient(h.view(), &d, None, m == MODES[2]); }),
            ];
            for r in rs {
                ctx.count(if r.is_ok() { "completed" } else { "refused" }, 1);
            }
            ctx.seen(&format!("{} {p:?} {s:?} {o:?} {m:?}", c.name));
        }
    }
}

/// Sizes below the smallest meaningful one: refusing is fine, memory errors are not
fn degenerate<A: Real>(ctx: &mut Ctx)
where
    Complex<A>: Scal,
{
    for kind in Kind::ALL {
        for n in 0..kind.min_n() + 2 {
            let Some(seed) = ctx.begin(&format!("C10 degenerate {kind:?} {} n={n}", <A as Scal>::NAME)) else { continue };
            for conc in [false, true] {
                let mut v = C10 { ctx, rng: Rng::new(seed) };
                // the visitor itself may be cut short by a refused construction
                let r = quiet(|| visit_kind::<A, _>(kind, n, conc, &[0, 1, 2], &mut v));
                ctx.count(if r.is_ok() { "bases_built" } else { "bases_refused" }, 1);
            }
            let r = quiet(|| {
                let base = A::base(kind, n, Make::Wrapper);
                let b = base.el();
                for d in 1..=4 {
                    let _ = quiet(|| b.diffmat(d).len());
                    let _ = quiet(|| b.diffmat_pinv(d).0.len());
                }
                let _ = quiet(|| b.laplacian().len());
                let _ = quiet(|| b.laplacian_pinv().0.len());
                let _ = quiet(|| b.stencil().len());
                let _ = quiet(|| b.stencil_inv().len());
                let _ = quiet(|| b.coords().len());
            });
            ctx.count(if r.is_ok() { "completed" } else { "refused" }, 1);
        }
    }
}

fn c10_type<A: Real>(ctx: &mut Ctx)
where
    Complex<A>: Scal,
{
    let th = ctx.thorough();
    let mut rng = Rng::new(ctx.seed);
    for kind in Kind::ALL {
        let mut ns: Vec<usize> = if ctx.tiny() {
            vec![kind.min_n(), kind.min_n() + 1, kind.min_n() + 4]
        } else {
            (kind.min_n()..=(if th { 90 } else { 26 })).chain([33, 64, 65, 100, 128, 131, 257]).collect()
        };
        if th && !ctx.tiny() {
            for _ in 0..40 {
                ns.push(rng.range(90, 1500));
            }
        }
        for n in ns {
            for conc in [false, true] {
                if ctx.tiny() && conc {
                    continue;
                }
                if let Some(seed) = ctx.begin(&format!("C10 {kind:?} {} n={n} conc={conc}", <A as Scal>::NAME)) {
                    let mut v = C10 { ctx, rng: Rng::new(seed) };
                    visit_kind::<A, _>(kind, n, conc, if n % 2 == 0 { &[0, 1, 2] } else { &[1, 3] }, &mut v);
                }
                if ctx.out_of_time() {
                    return;
                }
            }
        }
    }
}

pub fn c10(ctx: &mut Ctx) {
    degenerate::<f64>(ctx);
    let reps = if ctx.tiny() { 1 } else if ctx.thorough() { 600 } else { 30 };
    for rep in 0..reps {
        for ty in 0..TYPES.len() {
            if let Some(seed) = ctx.begin(&format!("C10 space type={ty} rep={rep}")) {
                let mut rng = Rng::new(seed);
                let (kinds, ns) = pick(&mut rng, ty, if ctx.tiny() { 6 } else { 14 });
                visit_space::<f64, _>(&kinds, &ns, &mut C10Space { ctx, rng });
            }
        }
    }
    c10_type::<f64>(ctx);
    if !ctx.tiny() {
        degenerate::<f32>(ctx);
        c10_type::<f32>(ctx);
    }
}

// ------------------------------------------------------------------ C14

struct C14<'a> {
    ctx: &'a mut Ctx,
    rng: Rng,
}

impl OpVisitor for C14<'_> {
    fn visit<TI: Scal, TO: Scal>(&mut self, op: &Op1<TI, TO>) {
        let (ctx, rng) = (&mut *self.ctx, &mut self.rng);
        let must = |ctx: &mut Ctx, ok: bool, what: String| {
            if ok {
                ctx.fail(&format!("{}: accepted {what}", op.label()));
            }
            ctx.count("refused", 1);
        };
        let (li, lo) = (lens(rng, op.nin), lens(rng, op.nout));
        for &i in &li {
            for &o in &lo {
                let x: Vec<TI> = if i == 0 { vec![] } else { vec_of(rng, i, 0, 0) };
                let mut y = vec![TO::nan(); o];
                let r = quiet(|| op.slice(&x, &mut y)).is_ok();
                if i != op.nin || o != op.nout {
                    must(ctx, r, format!("slices of length {i} -> {o}, sizes are {} -> {}", op.nin, op.nout));
                } else {
                    ctx.check(r, || format!("{}: refused slices of the right length", op.label()));
                    ctx.count("accepted", 1);
                }
                ctx.seen(&format!("{} slice {i}->{o}", op.label()));
            }
        }
        for _ in 0..10 {
            let d = rng.range(1, 4);
            let axis = rng.below(d);
            let mut s: Vec<usize> = (0..d).map(|_| rng.range(1, 4)).collect();
            s[axis] = op.nin;
            let mut t = s.clone();
            t[axis] = op.nout;
            let par = rng.coin();
            // one thing wrong at a time
            let wrong = rng.below(5);
            let mut ax = axis;
            match wrong {
                0 => s[axis] = { let mut k = op.nin; while k == op.nin { k = *rng.pick(&li) } k },
                1 => t[axis] = { let mut k = op.nout; while k == op.nout { k = *rng.pick(&lo) } k },
                2 => ax = d + rng.below(3),
                3 if d > 1 => {
                    let o = (axis + 1 + rng.below(d - 1)) % d;
                    t[o] += 1 + rng.below(3);
                }
                4 if d > 1 => {
                    let o = (axis + 1 + rng.below(d - 1)) % d;
                    if s[o] == op.nin && d == 2 {
                        continue;
                    }
                    // right lengths, wrong axis
                    if s[o] == op.nin || t[o] == op.nout {
                        continue;
                    }
                    ax = o;
                }
                _ => continue,
            }
            let a: ArrayD<TI> = fill(rng, &s, 0);
            let mut o = ArrayD::from_elem(IxDyn(&t), TO::nan());
            let r = quiet(|| op.inplace(a.view(), o.view_mut(), ax, par)).is_ok();
            must(ctx, r, format!("arrays {s:?} -> {t:?} along axis {ax} (par={par})"));
            if wrong == 0 || wrong == 2 || wrong == 4 {
                let r = quiet(|| op.alloc(a.view(), ax, par)).is_ok();
                must(ctx, r, format!("array {s:?} along axis {ax} (allocating, par={par})"));
            }
            ctx.seen(&format!("{} {s:?}->{t:?} axis={ax} par={par}", op.label()));
        }
    }
}

struct C14Space<'a> {
    ctx: &'a mut Ctx,
    rng: Rng,
}
impl<A: Real> SpaceVisitor<A> for C14Space<'_>
where
    Complex<A>: Scal,
{
    fn visit<P: Scal, S: Scal>(&mut self, c: &Case<A, P, S>) {
        let (ctx, rng) = (&mut *self.ctx, &mut self.rng);
        let bend = |rng: &mut Rng, s: &[usize]| -> Vec<usize> {
            let mut t = s.to_vec();
            let k = rng.below(t.len());
            t[k] = match rng.below(3) {
                0 => t[k] + 1,
                1 => t[k] - 1,
                _ => t[k] + 2 + rng.below(5),
            };
            t
        };
        for _ in 0..6 {
            let m = *rng.pick(&MODES);
            let (p, s, o) = (c.obj.phys(), c.obj.spec(), c.obj.orth());
            let (bp, bs, bo) = (bend(rng, &p), bend(rng, &s), bend(rng, &o));
            macro_rules! bad {
                ($op:ident, $good_in:expr, $bad_in:expr, $ti:ty, $good_out:expr, $bad_out:expr, $to:ty) => {{
                    let a: ArrayD<$ti> = fill(rng, &$bad_in, 0);
                    let g: ArrayD<$ti> = fill(rng, &$good_in, 0);
                    let out: ArrayD<$to> = fill(rng, &$good_out, 0);
                    let bout: ArrayD<$to> = fill(rng, &$bad_out, 0);
                    if quiet(|| { c.obj.$op(a.view(), m, Some(out.clone())); }).is_ok() {
                        ctx.fail(&format!("{} {} {m:?}: accepted input of shape {:?}", c.name, stringify!($op), $bad_in));
                    }
                    for im in [MODES[1], MODES[3]] {
                        if quiet(|| { c.obj.$op(g.view(), im, Some(bout.clone())); }).is_ok() {
                            ctx.fail(&format!("{} {} {im:?}: accepted output of shape {:?}", c.name, stringify!($op), $bad_out));
                        }
                    }
                    ctx.check(quiet(|| { c.obj.$op(g.view(), m, Some(out.clone())); }).is_ok(), || format!("{} {}: refused the right shapes", c.name, stringify!($op)));
                    ctx.count("refused", 3);
                    ctx.count("accepted", 1);
                }};
            }
            bad!(forward, p, bp, P, s, bs, S);
            bad!(backward, s, bs, S, p, bp, P);
            bad!(to_ortho, s, bs, S, o, bo, S);
            bad!(from_ortho, o, bo, S, s, bs, S);
            let a: ArrayD<S> = fill(rng, &bs, 0);
            let d: Vec<usize> = c.ns.iter().map(|_| rng.range(0, 2)).collect();
            for par in [false, true] {
                if quiet(|| { c.obj.gradient(a.view(), &d, None, par); }).is_ok() {
                    ctx.fail(&format!("{} gradient: accepted input of shape {bs:?}", c.name));
                }
            }
            ctx.count("refused", 2);
            ctx.seen(&format!("{} {bp:?} {bs:?} {bo:?} {m:?}", c.name));
        }
    }
}

fn c14_type<A: Real>(ctx: &mut Ctx)
where
    Complex<A>: Scal,
{
    let mut rng = Rng::new(ctx.seed);
    for kind in Kind::ALL {
        let mut ns: Vec<usize> = (kind.min_n()..=(if ctx.thorough() { 80 } else { 22 })).chain([64, 65, 129]).collect();
        if ctx.thorough() {
            for _ in 0..30 {
                ns.push(rng.range(80, 1200));
            }
        }
        for n in ns {
            for conc in [false, true] {
                if let Some(seed) = ctx.begin(&format!("C14 {kind:?} {} n={n} conc={conc}", <A as Scal>::NAME)) {
                    let mut v = C14 { ctx, rng: Rng::new(seed) };
                    visit_kind::<A, _>(kind, n, conc, &[0, 1, 2], &mut v);
                }
                if ctx.out_of_time() {
                    return;
                }
            }
        }
    }
}

pub fn c14(ctx: &mut Ctx) {
    let reps = if ctx.thorough() { 400 } else { 25 };
    for rep in 0..reps {
        for ty in 0..TYPES.len() {
            if let Some(seed) = ctx.begin(&format!("C14 space type={ty} rep={rep}")) {
                let mut rng = Rng::new(seed);
                let (kinds, ns) = pick(&mut rng, ty, 14);
                visit_space::<f64, _>(&kinds, &ns, &mut C14Space { ctx, rng });
            }
        }
    }
    c14_type::<f64>(ctx);
    c14_type::<f32>(ctx);
}
