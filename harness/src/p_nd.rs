//! C07 (parallel = serial), C08 (N-dimensional application), C22 (metadata).
use fsmon::ctx::{hash_str, Ctx};
use fsmon::gen::{vec_of, Rng, STYLES};
use fsmon::nd::{r2r, spectral, transforms, visit_kind, Elements, Make, Op1, OpVisitor};
use fsmon::num::{bits_eq, Real, Scal};
use fsmon::oracle::Kind;
use fsmon::probe::{cell, image, Probe};
use funspace::*;
use ndarray::{ArcArray, Array, ArrayD, Axis, CowArray, IxDyn, Slice};
use num_complex::Complex;
use std::sync::Arc;

/// Random shape with length `len` along a random axis
pub fn shape(rng: &mut Rng, len: usize, dmax: usize, cells: usize) -> (Vec<usize>, usize) {
    let d = rng.range(1, dmax);
    let axis = rng.below(d);
    let mut rest = (cells / len.max(1)).max(1);
    let mut s = vec![0; d];
    // now and then one of the other axes is long: many lanes
    if d > 1 && rng.below(8) == 0 {
        s.fill(1);
        s[axis] = len;
        let most = match rng.below(4) {
            0 => 16 * rest,
            1 => 4 * rest,
            _ => rest,
        };
        let lanes = rng.range(1, most.min(6000));
        let o = (axis + 1 + rng.below(d - 1)) % d;
        s[o] = lanes;
        if d > 2 && lanes >= 12 && rng.coin() {
            let q = (0..d).find(|k| *k != axis && *k != o).unwrap();
            s[q] = rng.range(1, 7);
            s[o] = lanes / s[q];
        }
        return (s, axis);
    }
    for i in 0..d {
        s[i] = if i == axis {
            len
        } else {
            let k = match rng.below(12) {
                0 => 1,
                1 => 0,
                2 => rng.range(1, 2),
                _ => rng.range(1, 9),
            }
            .min(rest);
            rest = (rest / k.max(1)).max(1);
            k
        };
    }
    (s, axis)
}

pub fn fill<T: Scal>(rng: &mut Rng, s: &[usize], style: usize) -> ArrayD<T> {
    let n: usize = s.iter().product();
    // magnitudes where the single-precision operations stay finite
    let v: Vec<T> = if n == 0 { vec![] } else { vec_of(rng, n, style, 6) };
    ArrayD::from_shape_vec(IxDyn(s), v).unwrap()
}

/// Old content of an output: ordinary values, NaN, infinities, the largest numbers
pub fn dirt<T: Scal>(rng: &mut Rng, s: &[usize]) -> ArrayD<T> {
    let special = match rng.below(5) {
        0 | 1 => return fill(rng, s, 0),
        2 => f64::NAN,
        3 => f64::INFINITY,
        _ => 3e38,
    };
    ArrayD::from_elem(IxDyn(s), T::make(special, -special))
}

/// The same array in another memory layout
pub struct Relaid<T> {
    store: ArrayD<T>,
    how: usize,
}
/// 4 and above: plain layout
pub const RELAID: usize = 4;
pub fn relaid<T: Scal>(a: &ArrayD<T>, how: usize) -> Relaid<T> {
    let mut t = a.shape().to_vec();
    match how {
        0 => t.reverse(),
        1 | 2 => *t.last_mut().unwrap() *= 2,
        _ => {}
    }
    let mut r = Relaid { store: ArrayD::from_elem(IxDyn(&t), T::nan()), how };
    r.write().assign(a);
    r
}
impl<T: Scal> Relaid<T> {
    pub fn read(&self) -> ndarray::ArrayViewD<'_, T> {
        let last = Axis(self.store.ndim() - 1);
        match self.how {
            0 => self.store.t(),
            1 => self.store.slice_axis(last, Slice::new(0, None, 2)),
            2 => self.store.slice_axis(last, Slice::new(0, Some((self.store.len_of(last) / 2) as isize), 1)),
            3 => self.store.slice_axis(Axis(0), Slice::new(0, None, -1)),
            _ => self.store.view(),
        }
    }
    pub fn write(&mut self) -> ndarray::ArrayViewMutD<'_, T> {
        let last = Axis(self.store.ndim() - 1);
        let half = (self.store.len_of(last) / 2) as isize;
        match self.how {
            0 => self.store.view_mut().reversed_axes(),
            1 => self.store.slice_axis_mut(last, Slice::new(0, None, 2)),
            2 => self.store.slice_axis_mut(last, Slice::new(0, Some(half), 1)),
            3 => self.store.slice_axis_mut(Axis(0), Slice::new(0, None, -1)),
            _ => self.store.view_mut(),
        }
    }
    /// memory between the elements of the view is untouched
    pub fn gaps_kept(&self) -> bool {
        let last = Axis(self.store.ndim() - 1);
        let half = (self.store.len_of(last) / 2) as isize;
        let nan = |v: &T| v.parts().0.is_nan();
        match self.how {
            1 => self.store.slice_axis(last, Slice::new(1, None, 2)).iter().all(nan),
            2 => self.store.slice_axis(last, Slice::new(half, None, 1)).iter().all(nan),
            _ => true,
        }
    }
}

/// Reference: the slice operation on every lane
pub fn lanes<TI: Scal, TO: Scal>(op: &Op1<TI, TO>, a: &ArrayD<TI>, axis: usize) -> ArrayD<TO> {
    let mut s = a.shape().to_vec();
    s[axis] = op.nout;
    let mut out = ArrayD::from_elem(IxDyn(&s), TO::nan());
    for (x, mut y) in a.lanes(Axis(axis)).into_iter().zip(out.lanes_mut(Axis(axis))) {
        let r = op.run(&x.to_vec());
        for (p, q) in y.iter_mut().zip(r) {
            *p = q;
        }
    }
    out
}

/// Equal up to a few rounding errors relative to the largest entry of the
/// lane, before or after the operation
pub fn close<T: Scal, I: Scal>(a: &ArrayD<T>, b: &ArrayD<T>, axis: usize, input: &ArrayD<I>) -> Option<String> {
    if a.shape() != b.shape() {
        return Some(format!("shape {:?} expected {:?}", a.shape(), b.shape()));
    }
    if bits_eq(a.iter(), b.iter()).is_none() {
        return None;
    }
    let finite = |m: f64, v: f64| if v.is_finite() { m.max(v) } else { m };
    for (l, ((x, y), z)) in a.lanes(Axis(axis)).into_iter().zip(b.lanes(Axis(axis))).zip(input.lanes(Axis(axis))).enumerate() {
        let m = y.iter().fold(0f64, |m, v| finite(m, v.mag()));
        let m = z.iter().fold(m, |m, v| finite(m, v.mag()));
        for (i, (p, q)) in x.iter().zip(y.iter()).enumerate() {
            let ((a0, a1), (b0, b1)) = (p.parts(), q.parts());
            let ok = |u: f64, v: f64| u == v || (u.is_nan() && v.is_nan()) || (u - v).abs() <= FAC * T::SEPS * m;
            if !(ok(a0, b0) && ok(a1, b1)) {
                return Some(format!("lane {l} position {i}: {p:?} expected {q:?}"));
            }
        }
    }
    None
}

const FAC: f64 = 256.;

// ------------------------------------------------------------------ C08

struct C08<'a> {
    ctx: &'a mut Ctx,
    rng: Rng,
}

impl OpVisitor for C08<'_> {
    fn visit<TI: Scal, TO: Scal>(&mut self, op: &Op1<TI, TO>) {
        let (ctx, rng) = (&mut *self.ctx, &mut self.rng);
        let (s, axis) = shape(rng, op.nin, 5, 1200);
        let a: ArrayD<TI> = fill(rng, &s, rng.clone().below(STYLES.len()));
        let keep = a.clone();
        let want = lanes(op, &a, axis);
        let what = format!("{} on {:?} axis {axis}", op.label(), s);
        let die = |ctx: &Ctx, e: Option<String>, how: &str| {
            if let Some(e) = e {
                ctx.fail(&format!("{what} ({how}): {e}"));
            }
        };
        let got = op.alloc(a.view(), axis, false);
        die(ctx, close(&got, &want, axis, &a), "allocating");
        // input unchanged
        ctx.check(bits_eq(a.iter(), keep.iter()).is_none(), || format!("{what}: the input was modified"));
        // in place into an array full of old data
        let dirty: ArrayD<TO> = dirt(rng, want.shape());
        let mut o = dirty.clone();
        op.inplace(a.view(), o.view_mut(), axis, false);
        die(ctx, close(&o, &want, axis, &a), "in place over old data");
        op.inplace(a.view(), o.view_mut(), axis, false);
        die(ctx, close(&o, &want, axis, &a), "in place a second time");
        ctx.check(bits_eq(a.iter(), keep.iter()).is_none(), || format!("{what}: the input was modified"));
        // a window of a larger array (leading axis), neighbours must survive
        if s.len() > 1 && axis != 0 && s[0] > 0 {
            let mut ps = want.shape().to_vec();
            ps[0] += 2;
            let old: ArrayD<TO> = fill(rng, &ps, 0);
            let mut parent = old.clone();
            let mut is = s.clone();
            is[0] += 3;
            let mut src: ArrayD<TI> = fill(rng, &is, 1);
            src.slice_axis_mut(Axis(0), Slice::from(2..2 + s[0])).assign(&a);
            let win = src.slice_axis(Axis(0), Slice::from(2..2 + s[0]));
            if win.is_standard_layout() {
                op.inplace(win, parent.slice_axis_mut(Axis(0), Slice::from(1..1 + s[0])), axis, false);
                die(ctx, close(&parent.slice_axis(Axis(0), Slice::from(1..1 + s[0])).to_owned(), &want, axis, &a), "window");
                for k in [0, ps[0] - 1] {
                    ctx.check(
                        bits_eq(parent.index_axis(Axis(0), k).iter(), old.index_axis(Axis(0), k).iter()).is_none(),
                        || format!("{what}: wrote outside the output window"),
                    );
                }
                ctx.count("windows", 1);
            }
        }
        // any other memory layout is either refused or handled correctly
        if s.iter().all(|&k| k > 1) {
            for how in 0..RELAID {
                let f = relaid(&a, how);
                match crate::quiet(|| op.alloc(f.read(), axis, false)) {
                    Ok(g) => die(ctx, close(&g, &want, axis, &a), &format!("input laid out {how}")),
                    Err(_) => ctx.count("refused_layouts", 1),
                }
                let mut fo = relaid(&dirty, how);
                match crate::quiet(|| op.inplace(a.view(), fo.write(), axis, false)) {
                    Ok(()) => die(ctx, close(&fo.read().to_owned(), &want, axis, &a), &format!("output laid out {how}")),
                    Err(_) => ctx.count("refused_layouts", 1),
                }
                ctx.check(fo.gaps_kept(), || format!("{what}: wrote between the elements of a strided output"));
            }
        }
        ctx.count("lanes", want.len() as u64 / op.nout.max(1) as u64);
        ctx.seen(&format!("{} d={} axis={axis} lanes={}", op.label(), s.len(), want.len() / op.nout.max(1)));
    }
}

/// Owned, shared and copy-on-write storage
fn storages(ctx: &mut Ctx, rng: &mut Rng, kind: Kind, n: usize) {
    type A = f64;
    macro_rules! go {
        ($b:expr, $t:ty) => {{
            let b = $b;
            let (r, c) = (rng.range(1, 4), rng.range(1, 4));
            let a: Array<$t, _> = Array::from_shape_vec((r, b.len_spec(), c), vec_of(rng, r * c * b.len_spec(), 0, 0)).unwrap();
            let arc: ArcArray<$t, _> = a.clone().into_shared();
            let twin = arc.clone();
            let cow = CowArray::from(a.view());
            let want = b.gradient(&a, 1, 1);
            for (g, how) in [(b.gradient(&arc, 1, 1), "shared"), (b.gradient(&cow, 1, 1), "copy-on-write"), (b.gradient_par(&arc, 1, 1), "shared/par")] {
                ctx.check(bits_eq(g.iter(), want.iter()).is_none(), || format!("gradient of {how} storage differs"));
            }
            let p = b.backward(&a, 1);
            let q = b.backward(&arc, 1);
            ctx.check(bits_eq(p.iter(), q.iter()).is_none(), || "backward of shared storage differs".into());
            // shared output: the other owner must not see the write
            let zeros = ArcArray::<$t, _>::zeros((r, b.len_orth(), c));
            let mut o = zeros.clone();
            b.to_ortho_inplace(&a, &mut o, 1);
            ctx.check(zeros.iter().all(|v| v.parts() == (0., 0.)), || "write leaked into a shared twin".into());
            ctx.check(bits_eq(twin.iter(), a.iter()).is_none(), || "shared input was modified".into());
        }};
    }
    match kind {
        Kind::R2c => go!(fourier_r2c::<A>(n), Complex<A>),
        Kind::C2c => go!(fourier_c2c::<A>(n), Complex<A>),
        _ => go!(r2r::<A>(kind, n), A),
    }
    ctx.seen(&format!("storage {kind:?} n={n} {}", <A as Scal>::NAME));
}

/// The drivers themselves, observed through the probe base
struct ProbeNd<'a> {
    ctx: &'a mut Ctx,
    rng: Rng,
    probe: Arc<Probe>,
    par: bool,
    pool: Option<&'a rayon::ThreadPool>,
    threads: usize,
}

impl OpVisitor for ProbeNd<'_> {
    fn visit<TI: Scal, TO: Scal>(&mut self, op: &Op1<TI, TO>) {
        let (ctx, rng) = (&mut *self.ctx, &mut self.rng);
        let code = match op.name.as_str() {
            "forward" => 100,
            "backward" => 200,
            "to_ortho" => 300,
            "from_ortho" => 400,
            g => g.trim_start_matches("gradient").parse().unwrap(),
        };
        let (s, axis) = if self.par { shape(rng, op.nin, 4, 3000) } else { shape(rng, op.nin, 5, 1500) };
        let mut a = ArrayD::from_elem(IxDyn(&s), TI::nan());
        for (l, mut x) in a.lanes_mut(Axis(axis)).into_iter().enumerate() {
            for (i, v) in x.iter_mut().enumerate() {
                *v = TI::make(cell(l as u64, i), 0.);
            }
        }
        let mut os = s.clone();
        os[axis] = op.nout;
        let nl: usize = os.iter().enumerate().filter(|(i, _)| *i != axis).map(|(_, k)| *k).product();
        self.probe.log.lock().unwrap().clear();
        let what = format!("{} of shape {s:?} axis {axis}", op.name);
        let alloc = rng.coin();
        let (par, pool) = (self.par, self.pool);
        let run = || {
            if alloc {
                op.alloc(a.view(), axis, par)
            } else {
                let mut o = ArrayD::from_elem(IxDyn(&os), TO::nan());
                op.inplace(a.view(), o.view_mut(), axis, par);
                o
            }
        };
        let o = match pool {
            Some(p) => p.install(run),
            None => run(),
        };
        if let Some(e) = self.probe.bad.lock().unwrap().first() {
            ctx.fail(&format!("driver of {what}: {e}"));
        }
        for (l, y) in o.lanes(Axis(axis)).into_iter().enumerate() {
            for (i, v) in y.iter().enumerate() {
                let w = image(l as u64, i, code);
                ctx.check(v.parts().0 == w, || format!("driver of {what}: lane {l} position {i} is {v:?} expected {w}"));
            }
        }
        // offline: the recorded visits cover every lane
        let log = self.probe.log.lock().unwrap();
        let mut hits = vec![0u32; nl];
        for v in log.iter() {
            ctx.check((v.lane as usize) < nl, || format!("driver of {what}: visited lane {} of {nl}", v.lane));
            hits[v.lane as usize] += 1;
        }
        ctx.check(hits.iter().all(|h| *h >= 1), || format!("driver of {what}: a lane was never visited"));
        let mut threads: Vec<usize> = log.iter().map(|v| v.thread).collect();
        threads.sort_unstable();
        threads.dedup();
        ctx.count("probe_lane_visits", log.len() as u64);
        if par {
            if threads.len() > 1 {
                ctx.count("probe_runs_on_several_threads", 1);
            }
            let order: Vec<String> = log.iter().map(|v| format!("{}@{}", v.lane, v.thread)).collect();
            ctx.seen(&format!("probe {what} pool={} schedule={:x}", self.threads, hash_str(&order.join(","))));
        } else {
            ctx.seen(&format!("probe {what}"));
        }
    }
}

fn probe_round(ctx: &mut Ctx, par: bool, pool: Option<&rayon::ThreadPool>, threads: usize, seed: u64, delay: u64) {
    let mut rng = Rng::new(seed);
    let p = Arc::new(Probe::new(rng.range(1, 12), rng.range(1, 12), rng.range(1, 12), delay));
    let mut v = ProbeNd { ctx, rng, probe: Arc::clone(&p), par, pool, threads };
    let (f, b) = transforms::<fsmon::nd::Full, _>(&p, Kind::Cheb, p.nin);
    let s = spectral::<fsmon::nd::Full, f64, _>(&p, Kind::Cheb, p.nin);
    for op in [f, b, s.to, s.from, s.grad.times(0), s.grad.times(1), s.grad.times(2)] {
        v.visit(&op);
    }
}

fn kind_sizes(rng: &mut Rng, kind: Kind, dense: usize, extra: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (kind.min_n()..=dense).collect();
    for _ in 0..extra {
        v.push(rng.range(dense, max));
    }
    v
}

fn c08_type<A: Real>(ctx: &mut Ctx)
where
    Complex<A>: Scal,
{
    let mut rng = Rng::new(ctx.seed);
    let (dense, extra, max, reps) = if ctx.thorough() { (80, 60, 400, 20) } else { (48, 14, 220, 10) };
    for kind in Kind::ALL {
        for n in kind_sizes(&mut rng, kind, dense, extra, max) {
            for rep in 0..reps {
                if let Some(seed) = ctx.begin(&format!("C08 {kind:?} {} n={n} rep={rep}", <A as Scal>::NAME)) {
                    let mut v = C08 { ctx, rng: Rng::new(seed) };
                    visit_kind::<A, _>(kind, n, rep % 2 == 1, &[1, 2], &mut v);
                    if A::EPS < 1e-10 {
                        storages(ctx, &mut Rng::new(seed ^ 1), kind, n);
                    }
                }
                if ctx.out_of_time() {
                    return;
                }
            }
        }
    }
}

pub fn c08(ctx: &mut Ctx) {
    for rep in 0..(if ctx.thorough() { 6000 } else { 1500 }) {
        if let Some(seed) = ctx.begin(&format!("C08 probe rep={rep}")) {
            probe_round(ctx, false, None, 0, seed, 0);
        }
    }
    c08_type::<f64>(ctx);
    c08_type::<f32>(ctx);
    crate::p_space::inputs_kept(ctx);
}

// ------------------------------------------------------------------ C07

struct C07<'a> {
    ctx: &'a mut Ctx,
    rng: Rng,
    pools: &'a [(usize, rayon::ThreadPool)],
    cells: usize,
}

impl OpVisitor for C07<'_> {
    fn visit<TI: Scal, TO: Scal>(&mut self, op: &Op1<TI, TO>) {
        let (ctx, rng) = (&mut *self.ctx, &mut self.rng);
        let (s, axis) = shape(rng, op.nin, 4, self.cells);
        let mut a: ArrayD<TI> = fill(rng, &s, rng.clone().below(STYLES.len()));
        // sometimes non-finite values in one lane: they must stay in it
        if rng.below(6) == 0 && !a.is_empty() {
            let k = rng.below(a.len());
            let v = if rng.coin() { TI::nan() } else { TI::make(f64::INFINITY, 0.) };
            *a.iter_mut().nth(k).unwrap() = v;
        }
        let want = op.alloc(a.view(), axis, false);
        let dirty: ArrayD<TO> = dirt(rng, want.shape());
        // four of the six pools
        let skip = rng.below(self.pools.len());
        for (t, pool) in self.pools.iter().enumerate().filter(|(k, _)| (k + skip) % self.pools.len() > 1).map(|(_, p)| p) {
            let what = format!("{} on {s:?} axis {axis}, {t} threads", op.label());
            let g = pool.install(|| op.alloc(a.view(), axis, true));
            if let Some(e) = close(&g, &want, axis, &a) {
                ctx.fail(&format!("{what} (allocating): {e}"));
            }
            let mut o = dirty.clone();
            pool.install(|| op.inplace(a.view(), o.view_mut(), axis, true));
            if let Some(e) = close(&o, &want, axis, &a) {
                ctx.fail(&format!("{what} (in place): {e}"));
            }
            ctx.count("parallel_runs", 2);
            // other memory layouts: refused or right
            if s.len() > 1 && s.iter().all(|&k| k > 1) {
                for how in 0..2 {
                    let f = relaid(&a, how);
                    match crate::quiet(|| pool.install(|| op.alloc(f.read(), axis, true))) {
                        Ok(g) => if let Some(e) = close(&g, &want, axis, &a) {
                            ctx.fail(&format!("{what} (input laid out {how}): {e}"));
                        },
                        Err(_) => ctx.count("refused_layouts", 1),
                    }
                    let mut fo = relaid(&dirty, how);
                    match crate::quiet(|| pool.install(|| op.inplace(a.view(), fo.write(), axis, true))) {
                        Ok(()) => if let Some(e) = close(&fo.read().to_owned(), &want, axis, &a) {
                            ctx.fail(&format!("{what} (output laid out {how}): {e}"));
                        },
                        Err(_) => ctx.count("refused_layouts", 1),
                    }
                }
            }
        }
        ctx.count("lanes", (want.len() / op.nout.max(1)) as u64);
        ctx.seen(&format!("{} d={} axis={axis} lanes={}", op.label(), s.len(), want.len() / op.nout.max(1)));
    }
}

fn c07_type<A: Real>(ctx: &mut Ctx, pools: &[(usize, rayon::ThreadPool)])
where
    Complex<A>: Scal,
{
    let mut rng = Rng::new(ctx.seed);
    let (dense, extra, max, reps) = if ctx.thorough() { (64, 80, 600, 10) } else { (32, 10, 260, 4) };
    for kind in Kind::ALL {
        for n in kind_sizes(&mut rng, kind, dense, extra, max) {
            for rep in 0..reps {
                if let Some(seed) = ctx.begin(&format!("C07 {kind:?} {} n={n} rep={rep}", <A as Scal>::NAME)) {
                    let cells = [600, 3000, 20_000][(seed % 3) as usize];
                    let mut v = C07 { ctx, rng: Rng::new(seed), pools, cells };
                    visit_kind::<A, _>(kind, n, rep % 2 == 1, &[0, 1, 3], &mut v);
                }
                if ctx.out_of_time() {
                    return;
                }
            }
        }
    }
}

pub fn c07(ctx: &mut Ctx) {
    let pools: Vec<(usize, rayon::ThreadPool)> = [1, 2, 3, 8, 13, 36]
        .iter()
        .map(|&t| (t, rayon::ThreadPoolBuilder::new().num_threads(t).build().unwrap()))
        .collect();
    for rep in 0..(if ctx.thorough() { 4000 } else { 1000 }) {
        if let Some(seed) = ctx.begin(&format!("C07 probe rep={rep}")) {
            let (t, p) = &pools[(seed % pools.len() as u64) as usize];
            probe_round(ctx, true, Some(p), *t, seed, 1 + seed / 8 % 60);
        }
    }
    crate::p_space::parallel(ctx, &pools);
    c07_type::<f64>(ctx, &pools);
    c07_type::<f32>(ctx, &pools);
}

// ------------------------------------------------------------------ C22

fn tk(t: &funspace::enums::TransformKind) -> &'static str {
    use funspace::enums::TransformKind as T;
    match t {
        T::R2r => "R2r",
        T::R2c => "R2c",
        T::C2c => "C2c",
    }
}
pub fn kind_name(k: Kind) -> (&'static str, &'static str) {
    match k {
        Kind::Cheb => ("Chebyshev", "R2r"),
        Kind::Dir => ("ChebDirichlet", "R2r"),
        Kind::Neu => ("ChebNeumann", "R2r"),
        Kind::DirNeu => ("ChebDirichletNeumann", "R2r"),
        Kind::BihA => ("ChebBiHarmonicA", "R2r"),
        Kind::BihB => ("ChebBiHarmonicB", "R2r"),
        Kind::R2c => ("FourierR2c", "R2c"),
        Kind::C2c => ("FourierC2c", "C2c"),
    }
}
pub fn check_kind(ctx: &Ctx, kind: Kind, b: funspace::BaseKind, t: funspace::enums::TransformKind, what: &str) {
    let (n, k) = kind_name(kind);
    ctx.check(format!("{b:?}") == n, || format!("{what}: base kind {b:?} expected {n}"));
    ctx.check(tk(&t) == k, || format!("{what}: transform kind {} expected {k}", tk(&t)));
}

fn base_meta<A: Real>(ctx: &Ctx, b: &dyn Elements<A>, kind: Kind, n: usize, what: &str) {
    check_kind(ctx, kind, b.base_kind(), b.transform_kind(), what);
    let (p, s, o) = b.lens();
    let got = (p, s, o, b.coords().len());
    let want = (n, kind.len_spec(n), kind.len_orth(n), n);
    ctx.check(got == want, || format!("{what}: (phys, spec, orth, coords) lengths {got:?} expected {want:?}"));
}

struct C22<'a> {
    ctx: &'a mut Ctx,
    rng: Rng,
    results: Vec<(String, Vec<(u64, u64)>)>,
}
impl OpVisitor for C22<'_> {
    fn visit<TI: Scal, TO: Scal>(&mut self, op: &Op1<TI, TO>) {
        let len = |what: &str| match what {
            "phys" => op.n,
            "spec" => op.kind.len_spec(op.n),
            _ => op.kind.len_orth(op.n),
        };
        let (i, o) = match op.name.as_str() {
            "forward" => ("phys", "spec"),
            "backward" => ("spec", "phys"),
            "from_ortho" => ("orth", "spec"),
            _ => ("spec", "orth"),
        };
        let (s, axis) = shape(&mut self.rng, len(i), 4, 800);
        let a: ArrayD<TI> = fill(&mut self.rng, &s, 0);
        let mut w = s.clone();
        w[axis] = len(o);
        for par in [false, true] {
            let r = op.alloc(a.view(), axis, par);
            self.ctx.check(r.shape() == &w[..], || format!("{} of {s:?} axis {axis} has shape {:?} expected {w:?}", op.label(), r.shape()));
        }
        let x: Vec<TI> = vec_of(&mut self.rng, len(i), 0, 0);
        self.results.push((op.label(), op.run(&x).iter().map(|v| v.bits()).collect()));
        self.ctx.seen(&format!("{} d={} axis={axis}", op.label(), s.len()));
    }
}

fn c22_type<A: Real>(ctx: &mut Ctx)
where
    Complex<A>: Scal,
{
    let mut rng = Rng::new(ctx.seed);
    let (dense, extra, max) = if ctx.thorough() { (400, 200, 4000) } else { (160, 40, 900) };
    for kind in Kind::ALL {
        for n in kind_sizes(&mut rng, kind, dense, extra, max) {
            if let Some(seed) = ctx.begin(&format!("C22 {kind:?} {} n={n}", <A as Scal>::NAME)) {
                for make in [Make::Wrapper, Make::Struct, Make::Clone] {
                    base_meta(ctx, A::base(kind, n, make).el(), kind, n, &format!("{make:?}"));
                }
                // the enum wrapper and the wrapped base are one and the same
                let mut r = vec![];
                for conc in [false, true] {
                    let mut v = C22 { ctx, rng: Rng::new(seed), results: vec![] };
                    visit_kind::<A, _>(kind, n, conc, &[0, 1], &mut v);
                    r.push(v.results);
                }
                for (x, y) in r[0].iter().zip(&r[1]) {
                    ctx.check(x == y, || format!("{}: enum wrapper and base disagree", x.0));
                }
                ctx.seen(&format!("meta {kind:?} n={n} {}", <A as Scal>::NAME));
            }
            if ctx.out_of_time() {
                return;
            }
        }
    }
}

pub fn c22(ctx: &mut Ctx) {
    // names are pairwise distinct
    if ctx.begin("C22 names").is_some() {
        let mut names = vec![];
        for k in Kind::ALL {
            let b = f64::base(k, 12, Make::Wrapper).el().base_kind();
            let s = b.to_string();
            ctx.check(!s.is_empty() && !names.contains(&s), || format!("two bases print as {s}"));
            ctx.seen(&format!("name {s}"));
            names.push(s);
        }
    }
    crate::p_space::metadata(ctx);
    c22_type::<f64>(ctx);
    c22_type::<f32>(ctx);
}
