//! One rank: performs the calls, logs what it ended up with.
use crate::ctx::{hash_str, Ctx};
use crate::elem::{Elem, Rng, SPARSE};
use crate::log::*;
use crate::spaces;
use funspace::space_mpi::decomp2d::Distribution;
use funspace::space_mpi::{all_gather_sum, broadcast_scalar, gather_sum, initialize, Communicator, Decomp2d, DecompHandler, Universe};
use ndarray::{s, Array2, ArrayView2, ArrayViewMut2, ShapeBuilder};
use num_complex::Complex;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};

static QUIET: AtomicBool = AtomicBool::new(false);

pub struct Rank<'a> {
    pub ctx: Ctx,
    pub log: Log,
    pub u: &'a Universe,
    pub rank: usize,
    pub np: usize,
    pub dir: String,
    /// differs between ranks: delays, layouts, choice among equivalent calls
    pub own: Rng,
    pub case: u64,
    salt: u32,
}

impl Rank<'_> {
    /// The same decision and the same numbers on every rank.
    pub fn begin(&mut self, desc: &str) -> Option<Rng> {
        let id = self.case;
        self.case += 1;
        let desc = format!("np={} {desc}", self.np);
        let seed = self.ctx.begin(&desc)?;
        self.log.start(id);
        self.own = Rng::new(seed ^ hash_str("own") ^ (self.rank as u64) << 40);
        self.salt = (seed % 1000) as u32;
        Some(Rng::new(seed))
    }
    pub fn thorough(&self) -> bool {
        self.ctx.thorough()
    }
    /// Ranks arrive at a call in varying order.
    pub fn delay(&mut self) {
        match self.own.below(8) {
            0 => std::thread::sleep(std::time::Duration::from_micros(self.own.next() % 400)),
            1 => std::thread::yield_now(),
            _ => {}
        }
    }
    pub fn fail(&self, msg: &str) -> ! {
        let m = format!("rank {} of {}, {}: {msg}", self.rank, self.np, self.ctx.current());
        std::fs::write(format!("{}/fail.{}", self.dir, self.rank), m.replace('\n', " | ")).expect("FSMON: fail file");
        std::process::abort();
    }
    pub fn check(&self, ok: bool, msg: impl FnOnce() -> String) {
        if !ok {
            self.fail(&msg());
        }
    }
    pub fn fresh(&mut self) -> u32 {
        self.salt = (self.salt + 7919) % 4_000_000;
        // arrays that are mostly zero
        if (self.salt / 7) % 6 == 5 { self.salt + SPARSE } else { self.salt }
    }
    /// Expected to be turned down: by panicking, without harm.
    pub fn refused(&mut self, op: &str, f: impl FnOnce()) {
        QUIET.store(true, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        QUIET.store(false, Ordering::SeqCst);
        let ok = match r {
            Ok(()) => 0.,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string()));
                if m.is_some_and(|m| m.starts_with("FSMON:")) {
                    std::process::exit(3);
                }
                1.
            }
        };
        self.log.put(REFUSED, op, "", [[0; 2]; 3], 0., std::iter::once((ok, 0.)));
    }
}

// ------------------------------------------------------------------ buffers

/// An array in one of several memory layouts.
pub struct Buf<T> {
    store: Array2<T>,
    sz: [usize; 2],
    layout: usize,
}
pub const LAYOUTS: usize = 5;

impl<T: Elem> Buf<T> {
    pub fn new(sz: [usize; 2], layout: usize, f: impl Fn(usize, usize) -> T) -> Self {
        let store = match layout {
            1 => Array2::from_elem((sz[0], sz[1]).f(), T::dirt()),
            2 => Array2::from_elem((2 * sz[0] + 1, sz[1] + 3), T::dirt()),
            4 => Array2::from_elem((sz[1], sz[0]), T::dirt()),
            _ => Array2::from_elem((sz[0], sz[1]), T::dirt()),
        };
        let mut b = Self { store, sz, layout };
        for ((i, j), x) in b.view_mut().indexed_iter_mut() {
            *x = f(i, j);
        }
        b
    }
    pub fn dirty(sz: [usize; 2], layout: usize) -> Self {
        Self::new(sz, layout, |_, _| T::dirt())
    }
    pub fn view(&self) -> ArrayView2<'_, T> {
        match self.layout {
            2 => self.store.slice(s![1..=2 * self.sz[0] - 1;2, 2..2 + self.sz[1]]),
            3 => self.store.slice(s![..;-1, ..;-1]),
            4 => self.store.t(),
            _ => self.store.view(),
        }
    }
    pub fn view_mut(&mut self) -> ArrayViewMut2<'_, T> {
        match self.layout {
            2 => self.store.slice_mut(s![1..=2 * self.sz[0] - 1;2, 2..2 + self.sz[1]]),
            3 => self.store.slice_mut(s![..;-1, ..;-1]),
            4 => self.store.view_mut().reversed_axes(),
            _ => self.store.view_mut(),
        }
    }
    /// cells next to the view which nobody may touch
    pub fn margin_ok(&self) -> bool {
        self.layout != 2
            || self.store.indexed_iter().all(|((i, j), x)| (i % 2 == 1 && j >= 2 && j < 2 + self.sz[1]) || *x == T::dirt())
    }
}

pub fn vals<T: Elem>(a: &ArrayView2<T>) -> Vec<(f64, f64)> {
    a.iter().map(|x| x.read()).collect()
}

/// The cells a rank owns under a distribution, with their numbers.
pub fn owned<T: Elem>(d: &Distribution<2>, g: [usize; 2], salt: u32, layout: usize) -> Buf<T> {
    let st = d.st;
    Buf::new(d.sz, layout, move |i, j| T::cell(salt + ((st[0] + i) * g[1] + st[1] + j) as u32))
}
pub fn global<T: Elem>(g: [usize; 2], salt: u32, layout: usize) -> Buf<T> {
    Buf::new(g, layout, move |i, j| T::cell(salt + (i * g[1] + j) as u32))
}

impl Rank<'_> {
    pub fn layout(&mut self) -> usize {
        self.own.below(LAYOUTS)
    }
    pub fn put_block<T: Elem>(&mut self, op: &str, d: &Distribution<2>, g: [usize; 2], salt: u32, b: &ArrayView2<T>) {
        self.check(b.shape() == d.sz, || format!("{op}: shape {:?}, owned {:?}", b.shape(), d.sz));
        self.log.put(BLOCK, op, T::NAME, [d.st, d.sz, g], f64::from(salt), vals(b).into_iter());
    }
    pub fn put_whole<T: Elem>(&mut self, kind: &str, op: &str, g: [usize; 2], salt: u32, b: &ArrayView2<T>) {
        self.check(b.shape() == g, || format!("{op}: shape {:?}, global {:?}", b.shape(), g));
        self.log.put(kind, op, T::NAME, [[0, 0], g, g], f64::from(salt), vals(b).into_iter());
    }
    pub fn leaf<T: Elem>(&mut self, op: &str) {
        self.log.put(ROOT, op, T::NAME, [[0; 2]; 3], 0., std::iter::empty());
    }
    pub fn kept<T: Elem>(&self, op: &str, b: &Buf<T>, before: &[(f64, f64)]) {
        self.check(vals(&b.view()) == before && b.margin_ok(), || format!("{op}: changed its input"));
    }
}

/// Hands out the target: afterwards it must still be the same window on the
/// same memory
pub fn steady<T: Elem>(op: &str, b: &mut Buf<T>, f: impl FnOnce(&mut ArrayViewMut2<'_, T>)) {
    let mut v = b.view_mut();
    let before = (v.shape().to_vec(), v.strides().to_vec(), v.as_ptr());
    f(&mut v);
    let after = (v.shape().to_vec(), v.strides().to_vec(), v.as_ptr());
    assert!(before == after, "{op}: shape, strides or memory of the target changed from {before:?} to {after:?}");
}

/// `$call` receives source and target views.
macro_rules! moved {
    ($r:expr, $op:expr, $t:ty, $src:expr, $dst:expr, |$a:ident, $b:ident| $call:expr) => {{
        let src: Buf<$t> = $src;
        let mut dst: Buf<$t> = $dst;
        let before = vals(&src.view());
        $r.delay();
        {
            let $a = &src.view();
            $crate::worker::steady($op, &mut dst, |$b| $call);
        }
        $r.kept($op, &src, &before);
        $r.check(dst.margin_ok(), || format!("{}: wrote next to its output", $op));
        dst
    }};
}
pub(crate) use moved;

// ------------------------------------------------------------------ sizes

/// Global sizes for `np` processes: every remainder, from one cell per rank up.
fn shape(rng: &mut Rng, np: usize) -> [usize; 2] {
    let mut one = || match rng.below(6) {
        0 => np + rng.below(2),
        1 => np * rng.range(1, 3),
        2 => np * rng.range(2, 3) - 1,
        3 => rng.range(np, 60),
        _ => rng.range(np, 3 * np + 4),
    };
    let a = one();
    let b = one();
    // messages of every size class
    if rng.below(40) == 0 {
        let g = [rng.range(60, 260), rng.range(60, 260)];
        return if rng.coin() { g } else { [g[0] * 2, np + rng.below(9)] };
    }
    [a.max(np), b.max(np)]
}

/// Shapes of one case: unrelated ones, or one and its transpose.
fn shapes(rng: &mut Rng, np: usize, most: usize) -> Vec<[usize; 2]> {
    let mut v: Vec<[usize; 2]> = (0..rng.range(1, most)).map(|_| shape(rng, np)).collect();
    if rng.below(3) == 0 {
        let g = v[rng.below(v.len())];
        v.push([g[1], g[0]]);
    }
    if rng.below(4) == 0 {
        let g = v[rng.below(v.len())];
        v.push([g[0], g[1] + 1]);
    }
    v
}

// ------------------------------------------------------------------ giants

/// Payload of a cell of an array too large for the log.
fn far_cell<T: Elem>(salt: u32, k: usize) -> T {
    T::cell(salt + (k % 3_900_017) as u32)
}
fn far<T: Elem>(d: &Distribution<2>, g: [usize; 2], salt: u32, layout: usize) -> Buf<T> {
    let st = d.st;
    Buf::new(d.sz, layout, move |i, j| far_cell(salt, (st[0] + i) * g[1] + st[1] + j))
}
fn far_global<T: Elem>(g: [usize; 2], salt: u32, layout: usize) -> Buf<T> {
    Buf::new(g, layout, move |i, j| far_cell(salt, i * g[1] + j))
}
impl Rank<'_> {
    /// Every rank compares its own cells on the spot.
    fn judge<T: Elem>(&mut self, op: &str, st: [usize; 2], g: [usize; 2], salt: u32, b: &ArrayView2<T>) {
        for ((i, j), x) in b.indexed_iter() {
            let w: T = far_cell(salt, (st[0] + i) * g[1] + st[1] + j);
            if x.read() != w.read() {
                self.fail(&format!("{op} {g:?}: has {x:?} at ({i}, {j}) of the block starting at {st:?}, expected {w:?}"));
            }
        }
        self.log.put("far", op, T::NAME, [st, [b.nrows(), b.ncols()], g], 0., std::iter::empty());
    }
}

/// More cells per process, or per message, than 16 bits count; in the last
/// case more per process than 20 bits do.
fn far_shape(rng: &mut Rng, np: usize, k: usize) -> [usize; 2] {
    let long = np * rng.range(33_000, 36_000) + rng.below(np);
    let thin = np.max(2) + rng.below(3);
    let message = 66_000 * np * np;
    match k % 4 {
        0 => [long, thin],
        1 => [thin, long],
        2 => {
            let a = (message as f64).sqrt() as usize + rng.below(20);
            [a, message / a + 1 + rng.below(20)]
        }
        _ => {
            let a = np * rng.range(700, 900) + rng.below(np);
            [a, 1_100_000 / 700 + rng.below(20)]
        }
    }
}

fn far_transposes<T: Elem>(r: &mut Rank, g: [usize; 2]) {
    let d = &Decomp2d::new(r.u, g);
    let salt = r.fresh() % 90_000;
    let (l1, l2, l3) = (r.layout(), r.layout(), r.layout());
    let y = moved!(r, "transpose_x_to_y", T, far(&d.x_pencil, g, salt, l1), Buf::dirty(d.y_pencil.sz, l2), |a, b| d.transpose_x_to_y(a, b));
    r.judge("transpose_x_to_y", d.y_pencil.st, g, salt, &y.view());
    let x = moved!(r, "transpose_y_to_x", T, y, Buf::dirty(d.x_pencil.sz, l3), |a, b| d.transpose_y_to_x(a, b));
    r.judge("x->y->x", d.x_pencil.st, g, salt, &x.view());
}

fn far_collectives<T: Elem>(r: &mut Rank, g: [usize; 2]) {
    let d = &Decomp2d::new(r.u, g);
    let root = r.rank == 0;
    for x in [true, false] {
        let p = if x { &d.x_pencil } else { &d.y_pencil };
        let name = |op: &str| format!("{op}_{}", if x { "x" } else { "y" });
        let salt = r.fresh() % 90_000;
        let (l1, l2) = (r.layout(), r.layout());
        let src: Buf<T> = far(p, g, salt, l1);
        if root {
            let a = if x { d.gather_x_root(&src.view()) } else { d.gather_y_root(&src.view()) };
            r.judge(&name("gather"), [0, 0], g, salt, &a.view());
        } else {
            if x { d.gather_x(&src.view()) } else { d.gather_y(&src.view()) }
            r.log.put("far", &name("gather"), T::NAME, [[0; 2], [0; 2], g], 0., std::iter::empty());
        }
        let o: Array2<T> = if root {
            let a: Buf<T> = far_global(g, salt, l2);
            if x { d.scatter_x_root(&a.view()) } else { d.scatter_y_root(&a.view()) }
        } else if x {
            d.scatter_x()
        } else {
            d.scatter_y()
        };
        r.judge(&name("scatter"), p.st, g, salt, &o.view());
        // one copy of the whole array per process
        if g[0] * g[1] * r.np < 6_000_000 {
            let a = moved!(r, "all_gather", T, src, Buf::dirty(g, l2), |a, b| if x { d.all_gather_x(a, b) } else { d.all_gather_y(a, b) });
            r.judge(&name("all_gather"), [0, 0], g, salt, &a.view());
        }
    }
}

// ------------------------------------------------------------------ C16

fn c16(r: &mut Rank) {
    let reps = if r.thorough() { 120 } else { 100 };
    for k in 0..reps {
        let Some(mut rng) = r.begin(&format!("partition {k}")) else { continue };
        let mut handler = DecompHandler::new(r.u);
        let mut shapes = shapes(&mut rng, r.np, 4);
        // no array of this size is ever allocated
        if k % 3 == 0 {
            let top = rng.range(11, 26);
            let n = rng.range(1 << 10, 1 << top);
            let m = r.np + rng.below(3);
            shapes.push(if rng.coin() { [n, m] } else { [m, n] });
        }
        for g in shapes.iter().copied() {
            let d = Decomp2d::new(r.u, g);
            r.check(d.nprocs as usize == r.np && d.nrank as usize == r.rank, || "process count or rank".into());
            r.check(
                d.get_global_shape() == g && d.get_x_pencil_shape() == d.x_pencil.sz && d.get_y_pencil_shape() == d.y_pencil.sz,
                || "reported shapes disagree".into(),
            );
            for (axis, p) in [(0, &d.x_pencil), (1, &d.y_pencil)] {
                tables(r, &format!("pencil along axis {axis}"), p, g);
            }
            for (a, b, op) in [(&d.x_pencil, &d.y_pencil, "counts x->y"), (&d.y_pencil, &d.x_pencil, "counts y->x")] {
                let (c, o) = a.get_counts_all_to_all(b);
                r.log.put("counts", op, "", [a.st, a.sz, g], 0., c.iter().zip(&o).map(|(a, b)| (f64::from(*a), f64::from(*b))));
            }
            handler.insert(d);
        }
        for g in &shapes {
            let d = handler.get_decomp_from_global_shape(g);
            r.check(d.get_global_shape() == *g, || format!("lookup of {g:?} gives {:?}", d.get_global_shape()));
            let fresh = Decomp2d::new(r.u, *g);
            r.check(d.x_pencil.sz == fresh.x_pencil.sz && d.y_pencil.sz == fresh.y_pencil.sz, || format!("lookup of {g:?}: other pencils"));
        }
        r.log.end();
    }
}

fn tables(r: &mut Rank, op: &str, p: &Distribution<2>, g: [usize; 2]) {
    let v: Vec<(f64, f64)> = (0..p.sz_procs.len())
        .flat_map(|q| [p.st_procs[q], p.sz_procs[q], p.en_procs[q]])
        .map(|x| (x[0] as f64, x[1] as f64))
        .collect();
    r.check(p.nprocs == r.np && p.nrank == r.rank, || "distribution: process count or rank".into());
    r.check(p.length() == p.sz[0] * p.sz[1], || "distribution: length".into());
    r.check(p.en[0] + 1 == p.st[0] + p.sz[0] && p.en[1] + 1 == p.st[1] + p.sz[1], || "distribution: end".into());
    let (c, o) = p.get_counts_all_gather();
    r.log.put("own", op, "", [p.st, p.sz, g], 0., v.into_iter());
    r.log.put("gather", op, "", [p.st, p.sz, g], 0., c.iter().zip(&o).map(|(a, b)| (f64::from(*a), f64::from(*b))));
}

// ------------------------------------------------------------------ C17

fn transposes<T: Elem>(r: &mut Rank, rng: &mut Rng, dcps: &[Decomp2d]) {
    for _ in 0..rng.range(3, 6) {
        let d = &dcps[rng.below(dcps.len())];
        let g = d.n_global;
        let salt = r.fresh();
        let (l1, l2, l3) = (r.layout(), r.layout(), r.layout());
        if rng.coin() {
            let y = moved!(r, "transpose_x_to_y", T, owned(&d.x_pencil, g, salt, l1), Buf::dirty(d.y_pencil.sz, l2), |a, b| d.transpose_x_to_y(a, b));
            r.put_block("transpose_x_to_y", &d.y_pencil, g, salt, &y.view());
            let x = moved!(r, "transpose_y_to_x", T, y, Buf::dirty(d.x_pencil.sz, l3), |a, b| d.transpose_y_to_x(a, b));
            r.put_block("x->y->x", &d.x_pencil, g, salt, &x.view());
        } else {
            let x = moved!(r, "transpose_y_to_x", T, owned(&d.y_pencil, g, salt, l1), Buf::dirty(d.x_pencil.sz, l2), |a, b| d.transpose_y_to_x(a, b));
            r.put_block("transpose_y_to_x", &d.x_pencil, g, salt, &x.view());
            let y = moved!(r, "transpose_x_to_y", T, x, Buf::dirty(d.y_pencil.sz, l3), |a, b| d.transpose_x_to_y(a, b));
            r.put_block("y->x->y", &d.y_pencil, g, salt, &y.view());
        }
    }
}

fn decomps<'a>(r: &Rank<'a>, rng: &mut Rng) -> Vec<Decomp2d<'a>> {
    shapes(rng, r.np, 3).into_iter().map(|g| Decomp2d::new(r.u, g)).collect()
}

/// Run `$f::<T>` with one of the payload types.
macro_rules! with_elem {
    ($k:expr, $f:ident, $($a:expr),*) => {
        match $k % 7 {
            0 => $f::<f64>($($a),*),
            1 => $f::<Complex<f64>>($($a),*),
            2 => $f::<f32>($($a),*),
            3 => $f::<i32>($($a),*),
            4 => $f::<Complex<f32>>($($a),*),
            5 => $f::<i64>($($a),*),
            _ => $f::<u64>($($a),*),
        }
    };
}

fn c17(r: &mut Rank) {
    let reps = if r.thorough() { 200 } else { 200 };
    for k in 0..reps {
        let Some(mut rng) = r.begin(&format!("transpose {k}")) else { continue };
        let d = decomps(r, &mut rng);
        with_elem!(k, transposes, r, &mut rng, &d);
        r.log.end();
    }
    for k in 0..if r.thorough() { 8 } else { 4 } {
        let Some(mut rng) = r.begin(&format!("far {k}")) else { continue };
        let g = far_shape(&mut rng, r.np, k);
        with_elem!(rng.below(7), far_transposes, r, g);
        r.log.end();
    }
    spaces::drive(r, "C17");
}

// ------------------------------------------------------------------ C18

fn collectives<T: Elem>(r: &mut Rank, rng: &mut Rng, dcps: &[Decomp2d]) {
    for _ in 0..rng.range(5, 9) {
        let d = &dcps[rng.below(dcps.len())];
        let g = d.n_global;
        let salt = r.fresh();
        let (l1, l2) = (r.layout(), r.layout());
        let alloc = r.own.coin();
        let root = r.rank == 0;
        let x = rng.coin();
        let p = if x { &d.x_pencil } else { &d.y_pencil };
        let op = ["gather", "scatter", "all_gather", "split"][rng.below(4)];
        let name = format!("{op}_{}", if x { "x" } else { "y" });
        r.delay();
        match op {
            "gather" => {
                let src: Buf<T> = owned(p, g, salt, l1);
                let before = vals(&src.view());
                let v = src.view();
                if !root {
                    if x { d.gather_x(&v) } else { d.gather_y(&v) }
                    r.kept(&name, &src, &before);
                    r.leaf::<T>(&name);
                } else if alloc {
                    let a = if x { d.gather_x_root(&v) } else { d.gather_y_root(&v) };
                    r.kept(&name, &src, &before);
                    r.put_whole(ROOT, &name, g, salt, &a.view());
                } else {
                    let mut a: Buf<T> = Buf::dirty(g, l2);
                    steady(&name, &mut a, |o| if x { d.gather_x_inplace_root(&v, o) } else { d.gather_y_inplace_root(&v, o) });
                    r.kept(&name, &src, &before);
                    r.check(a.margin_ok(), || format!("{name}: wrote next to its output"));
                    r.put_whole(ROOT, &name, g, salt, &a.view());
                }
            }
            "scatter" => {
                let mut a: Buf<T> = Buf::dirty(p.sz, l2);
                if root {
                    let src: Buf<T> = global(g, salt, l1);
                    let before = vals(&src.view());
                    let v = src.view();
                    if alloc {
                        let o = if x { d.scatter_x_root(&v) } else { d.scatter_y_root(&v) };
                        r.put_block(&name, p, g, salt, &o.view());
                    } else {
                        steady(&name, &mut a, |o| if x { d.scatter_x_inplace_root(&v, o) } else { d.scatter_y_inplace_root(&v, o) });
                        r.put_block(&name, p, g, salt, &a.view());
                    }
                    r.kept(&name, &src, &before);
                } else if alloc {
                    let o: Array2<T> = if x { d.scatter_x() } else { d.scatter_y() };
                    r.put_block(&name, p, g, salt, &o.view());
                } else {
                    steady(&name, &mut a, |o| if x { d.scatter_x_inplace(o) } else { d.scatter_y_inplace(o) });
                    r.put_block(&name, p, g, salt, &a.view());
                }
                r.check(a.margin_ok(), || format!("{name}: wrote next to its output"));
            }
            "all_gather" => {
                let a = moved!(r, &name, T, owned(p, g, salt, l1), Buf::dirty(g, l2), |a, b| if x {
                    d.all_gather_x(a, b)
                } else {
                    d.all_gather_y(a, b)
                });
                r.put_whole(FULL, &name, g, salt, &a.view());
            }
            _ => {
                let src: Buf<T> = global(g, salt, l1);
                let v = src.view();
                let o = if x { d.split_array_x_pencil(&v) } else { d.split_array_y_pencil(&v) };
                r.put_block(&name, p, g, salt, &o.view());
                let mut a: Buf<T> = Buf::dirty(p.sz, l2);
                steady(&name, &mut a, |o| p.split_array_inplace(&v, o));
                r.check(a.margin_ok(), || format!("{name}: wrote next to its output"));
                r.put_block(&format!("{name} inplace"), p, g, salt, &a.view());
            }
        }
    }
}

fn c18(r: &mut Rank) {
    let reps = if r.thorough() { 200 } else { 200 };
    for k in 0..reps {
        let Some(mut rng) = r.begin(&format!("collectives {k}")) else { continue };
        let d = decomps(r, &mut rng);
        with_elem!(k, collectives, r, &mut rng, &d);
        r.log.end();
    }
    for k in 0..if r.thorough() { 8 } else { 4 } {
        let Some(mut rng) = r.begin(&format!("far {k}")) else { continue };
        let g = far_shape(&mut rng, r.np, k);
        with_elem!(rng.below(7), far_collectives, r, g);
        r.log.end();
    }
    spaces::drive(r, "C18");
}

// ------------------------------------------------------------------ C20

fn scalars<T: Elem + std::iter::Sum + num_traits::Zero>(r: &mut Rank, rng: &mut Rng, _: &[Decomp2d]) {
    for _ in 0..rng.range(8, 20) {
        let op = rng.below(3);
        let mine = T::make(r.own.next() as u32 % [2, 100, 1 << 20][rng.below(3)]);
        let old = T::make(r.own.next() as u32 % 5000);
        let zero = rng.below(6) == 0;
        let mine = if zero { T::zero() } else { mine };
        r.delay();
        let name = ["broadcast", "gather_sum", "all_gather_sum"][op];
        let (given, got) = match op {
            0 => {
                let mut x = mine;
                broadcast_scalar(r.u, &mut x);
                (mine, x)
            }
            1 => {
                let mut x = old;
                gather_sum(r.u, &mine, &mut x);
                r.check(r.rank == 0 || x == old, || "gather_sum: changed the result variable of a process that is not the root".into());
                (mine, x)
            }
            _ => {
                let mut x = old;
                all_gather_sum(r.u, &mine, &mut x);
                (mine, x)
            }
        };
        r.log.put(VALUE, name, T::NAME, [[0; 2]; 3], 0., [given.read(), got.read()].into_iter());
    }
}

fn fractions(r: &mut Rank, rng: &mut Rng) {
    for _ in 0..rng.range(8, 20) {
        let e = [0, 3, -200, 200, 12][rng.below(5)];
        let mut mine = r.own.sym() * 10f64.powi(e + r.own.below(6) as i32);
        if r.own.below(12) == 0 {
            mine = [f64::INFINITY, -0., f64::MIN_POSITIVE / 4.][r.own.below(3)];
        }
        let name = ["broadcast", "gather_sum", "all_gather_sum"][rng.below(3)];
        r.delay();
        let mut x = mine;
        match name {
            "broadcast" => broadcast_scalar(r.u, &mut x),
            "gather_sum" => gather_sum(r.u, &mine, &mut x),
            _ => all_gather_sum(r.u, &mine, &mut x),
        }
        r.log.put(VALUE, name, "real", [[0; 2]; 3], 1e-14, [(mine, 0.), (x, 0.)].into_iter());
    }
}

fn c20(r: &mut Rank) {
    let reps = if r.thorough() { 400 } else { 300 };
    for k in 0..reps {
        let Some(mut rng) = r.begin(&format!("scalars {k}")) else { continue };
        if k % 8 == 7 {
            fractions(r, &mut rng);
        } else {
            with_elem!(k, scalars, r, &mut rng, &[]);
        }
        r.log.end();
    }
}

// ------------------------------------------------------------------ C23

/// A shape other than `sz`: grown, shrunk, or that of the other pencil.
pub fn off(rng: &mut Rng, sz: [usize; 2], own: &mut Rng) -> [usize; 2] {
    let axis = rng.below(2);
    let mut s = sz;
    match rng.below(4) {
        0 => s[axis] += 1,
        1 => s[axis] += 1 + own.below(3),
        2 if s[axis] > 1 => s[axis] -= 1,
        _ => s.swap(0, 1),
    }
    if s == sz {
        s[axis] += 1;
    }
    s
}

fn misuse<T: Elem>(r: &mut Rank, rng: &mut Rng, dcps: &[Decomp2d]) {
    for _ in 0..rng.range(4, 8) {
        let d = &dcps[rng.below(dcps.len())];
        let g = d.n_global;
        let salt = r.fresh();
        let x = rng.coin();
        let (p, q) = if x { (&d.x_pencil, &d.y_pencil) } else { (&d.y_pencil, &d.x_pencil) };
        let root = r.rank == 0;
        let c = if x { "x" } else { "y" };
        let mut own = r.own.clone();
        let snd_bad = rng.coin();
        let (pb, qb, gb) = (off(rng, p.sz, &mut own), off(rng, q.sz, &mut own), off(rng, g, &mut own));
        // a shape that happens to be right elsewhere is still wrong here
        let snd = Buf::<T>::dirty(if snd_bad { pb } else { p.sz }, 0);
        let mut rcv = Buf::<T>::dirty(if snd_bad { q.sz } else { qb }, 0);
        let mut pen = Buf::<T>::dirty(if snd_bad { p.sz } else { pb }, 0);
        let mut whole = Buf::<T>::dirty(if snd_bad { g } else { gb }, 0);
        let wsrc = Buf::<T>::dirty(if snd_bad { gb } else { g }, 0);
        let good = Buf::<T>::dirty(p.sz, 0);
        match rng.below(7) {
            0 => r.refused(&format!("transpose from {c}, wrong {}", if snd_bad { "source" } else { "target" }), || {
                if x { d.transpose_x_to_y(&snd.view(), &mut rcv.view_mut()) } else { d.transpose_y_to_x(&snd.view(), &mut rcv.view_mut()) }
            }),
            1 => r.refused(&format!("all_gather_{c}, wrong {}", if snd_bad { "source" } else { "target" }), || {
                if x { d.all_gather_x(&snd.view(), &mut whole.view_mut()) } else { d.all_gather_y(&snd.view(), &mut whole.view_mut()) }
            }),
            2 => {
                // every rank gets its own source wrong
                let snd = Buf::<T>::dirty(pb, 0);
                r.refused(&format!("gather_{c}, wrong source"), || match (root, x) {
                    (true, true) => d.gather_x_inplace_root(&snd.view(), &mut Array2::zeros(g)),
                    (true, false) => d.gather_y_inplace_root(&snd.view(), &mut Array2::zeros(g)),
                    (false, true) => d.gather_x(&snd.view()),
                    (false, false) => d.gather_y(&snd.view()),
                });
            }
            3 => r.refused(&format!("scatter_{c}, wrong array"), || match (root, x) {
                (true, true) => d.scatter_x_inplace_root(&wsrc.view(), &mut pen.view_mut()),
                (true, false) => d.scatter_y_inplace_root(&wsrc.view(), &mut pen.view_mut()),
                (false, true) => d.scatter_x_inplace(&mut Buf::<T>::dirty(pb, 0).view_mut()),
                (false, false) => d.scatter_y_inplace(&mut Buf::<T>::dirty(pb, 0).view_mut()),
            }),
            4 => r.refused(&format!("gather_{c}, roles swapped"), || match (root, x) {
                (true, true) => d.gather_x(&good.view()),
                (true, false) => d.gather_y(&good.view()),
                (false, true) => drop(d.gather_x_root(&good.view())),
                (false, false) => drop(d.gather_y_root(&good.view())),
            }),
            5 => {
                let full = Buf::<T>::dirty(g, 0);
                r.refused(&format!("scatter_{c}, roles swapped"), || match (root, x) {
                    (true, true) => drop(d.scatter_x::<T>()),
                    (true, false) => drop(d.scatter_y::<T>()),
                    (false, true) => drop(d.scatter_x_root(&full.view())),
                    (false, false) => drop(d.scatter_y_root(&full.view())),
                });
            }
            _ => {
                let wrong = Array2::<T>::zeros(pb);
                r.refused("check_shape", || p.check_shape(&wrong));
            }
        }
        // still in step with each other
        let (l1, l2) = (r.layout(), r.layout());
        let y = moved!(r, "transpose", T, owned(&d.x_pencil, g, salt, l1), Buf::dirty(d.y_pencil.sz, l2), |a, b| d.transpose_x_to_y(a, b));
        r.put_block("transpose after a refused call", &d.y_pencil, g, salt, &y.view());
    }
}

fn c23(r: &mut Rank) {
    let reps = if r.thorough() { 200 } else { 100 };
    for k in 0..reps {
        let Some(mut rng) = r.begin(&format!("misuse {k}")) else { continue };
        let d = decomps(r, &mut rng);
        with_elem!(k, misuse, r, &mut rng, &d);
        r.log.end();
    }
    spaces::drive(r, "C23");
}

// ------------------------------------------------------------------ entry

pub fn main(prop: &str) {
    let dir = std::env::var("FSMON_DIR").expect("FSMON: FSMON_DIR");
    let u = initialize().expect("FSMON: no MPI");
    let world = u.world();
    let (rank, np) = (world.rank() as usize, world.size() as usize);
    if rank != 0 {
        std::env::remove_var("FSMON_CRUMB");
    }
    let d2 = dir.clone();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.load(Ordering::SeqCst) {
            return;
        }
        let _ = std::fs::write(format!("{d2}/panic.{rank}"), i.to_string().replace('\n', " | "));
        // the other ranks are waiting: end the whole job
        std::process::abort();
    }));
    let mut r = Rank {
        ctx: Ctx::from_env(prop),
        log: Log::new(&format!("{dir}/log.{rank}")),
        u: &u,
        rank,
        np,
        dir,
        own: Rng::new(0),
        case: 0,
        salt: 0,
    };
    std::fs::write(format!("{}/started.{rank}", r.dir), "").expect("FSMON: start file");
    match prop {
        "C16" => c16(&mut r),
        "C17" => c17(&mut r),
        "C18" => c18(&mut r),
        "C19" => spaces::drive(&mut r, "C19"),
        "C20" => c20(&mut r),
        "C23" => c23(&mut r),
        _ => std::process::exit(3),
    }
    drop(r.log);
    std::fs::write(format!("{}/done.{rank}", r.dir), "").expect("FSMON: done file");
}
