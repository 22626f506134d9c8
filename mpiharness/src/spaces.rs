//! Distributed spaces: every call of a `Space2Mpi`, against the serial
//! `Space2` over the same bases.
use crate::elem::{Elem, Rng};
use crate::log::*;
use crate::worker::*;
use funspace::space_mpi::{BaseSpaceMpi, Decomp2d, Equivalence, Space2Mpi};
use funspace::*;
use ndarray::{Array2, ArrayView2};
use num_complex::Complex;

pub trait Flt: FloatNum + ScalarNum + Elem + Equivalence {
    /// tolerance relative to the largest value of an array
    const TOL: f64;
    fn of(x: f64) -> Self;
}
impl Flt for f64 {
    const TOL: f64 = 1e-8;
    fn of(x: f64) -> Self {
        x
    }
}
impl Flt for f32 {
    const TOL: f64 = 2e-3;
    fn of(x: f64) -> Self {
        x as f32
    }
}

/// Random field values
pub trait Val: Elem + ScalarNum {
    fn val(rng: &mut Rng) -> Self;
}

/// Dense, sparse or smooth fields
fn field<T: Val>(rng: &mut Rng, g: [usize; 2]) -> Array2<T> {
    let style = rng.below(5);
    let k = [rng.below(g[0]), rng.below(g[1])];
    Array2::from_shape_fn(g, |(i, j)| {
        let v = T::val(rng);
        let keep = match style {
            0 => rng.below(12) == 0,
            1 => i + j < 6,
            2 => i == k[0] || j == k[1],
            _ => true,
        };
        if keep { v } else { T::zero() }
    })
}
impl Val for f64 {
    fn val(rng: &mut Rng) -> Self {
        rng.sym()
    }
}
impl Val for f32 {
    fn val(rng: &mut Rng) -> Self {
        rng.sym() as f32
    }
}
impl<A: Flt> Val for Complex<A>
where
    Complex<A>: Elem + ScalarNum,
{
    fn val(rng: &mut Rng) -> Self {
        let a = rng.sym();
        Complex::new(A::of(a), A::of(rng.sym()))
    }
}

fn r2r<A: FloatNum>(k: usize, n: usize) -> BaseR2r<A> {
    match k {
        0 => chebyshev(n),
        1 => cheb_dirichlet(n),
        2 => cheb_neumann(n),
        3 => cheb_dirichlet_neumann(n),
        4 => cheb_biharmonic_a(n),
        _ => cheb_biharmonic_b(n),
    }
}
const NAMES: [&str; 6] = ["cheb", "dir", "neu", "dirneu", "biha", "bihb"];

/// Long enough for every base and for one cell per rank in every
/// representation.
fn length(rng: &mut Rng, np: usize, fourier: bool) -> usize {
    let min = if fourier { 2 * np } else { (np + 4).max(10) };
    match rng.below(12) {
        0 => rng.range(min, 140),
        1..=3 => min,
        4..=6 => min + rng.below(3),
        7..=8 => rng.range(min, 40),
        _ => rng.range(min, min + 8),
    }
}

pub fn drive(r: &mut Rank, prop: &str) {
    let reps = match (prop, r.thorough()) {
        ("C19", false) => 200,
        ("C19", true) => 200,
        (_, false) => 48,
        (_, true) => 64,
    };
    for k in 0..reps {
        let Some(mut rng) = r.begin(&format!("{prop} space {k}")) else { continue };
        let rng = &mut rng;
        let np = r.np;
        let single = k % 5 == 4;
        let kinds = if single { 3 } else { 6 };
        let (k0, k1) = (rng.below(kinds), rng.below(kinds));
        let combo = k % 4;
        let (mut n0, mut n1) = (length(rng, np, combo != 0), length(rng, np, combo >= 2));
        // now and then far more points along one axis
        if !single && rng.below(12) == 0 {
            let long = |rng: &mut Rng, fourier: bool| {
                let top = if fourier { 1100 } else { 300 };
                let near = [256, 257, 258, 259, 511, 512, 513, 514, 515, 516, 1025, 1026];
                let n = if rng.coin() { rng.range(200, top) } else { near[rng.below(near.len())] };
                n.min(top)
            };
            if combo == 3 && rng.coin() {
                n1 = long(rng, true);
                n0 = 2 * np + rng.below(3);
            } else {
                n0 = long(rng, combo != 0);
                n1 = n1.min((np + 4).max(2 * np).max(10));
            }
        }
        macro_rules! go {
            ($t:ty, $b0:expr, $b1:expr, $name:expr) => {{
                let (b0, b1) = ($b0, $b1);
                let sp = Space2Mpi::new(&b0, &b1, r.u);
                let rf = Space2::new(&b0, &b1);
                let name = format!("{} {}x{} {}", $name, n0, n1, <$t as Elem>::NAME);
                let sp = if rng.coin() { sp.clone() } else { sp };
                match prop {
                    "C17" => c17(r, rng, &sp),
                    "C18" => c18(r, rng, &sp),
                    "C19" => c19::<$t, _, _, _, _>(r, rng, &sp, &rf, &name),
                    _ => c23(r, rng, &sp),
                }
            }};
        }
        match (combo, single) {
            (0, false) => go!(f64, r2r::<f64>(k0, n0), r2r::<f64>(k1, n1), format!("{}*{}", NAMES[k0], NAMES[k1])),
            (0, true) => go!(f32, r2r::<f32>(k0, n0), r2r::<f32>(k1, n1), format!("{}*{}", NAMES[k0], NAMES[k1])),
            (1, false) => go!(f64, fourier_r2c::<f64>(n0), r2r::<f64>(k1, n1), format!("r2c*{}", NAMES[k1])),
            (1, true) => go!(f32, fourier_r2c::<f32>(n0), r2r::<f32>(k1, n1), format!("r2c*{}", NAMES[k1])),
            (2, _) => go!(f64, fourier_c2c::<f64>(n0), fourier_r2c::<f64>(n1), "c2c*r2c"),
            _ => go!(f64, fourier_c2c::<f64>(n0), fourier_c2c::<f64>(n1), "c2c*c2c"),
        }
        r.log.end();
    }
}

// ------------------------------------------------------------------ C17 / C18 / C23

fn c17<A, P, S, SP>(r: &mut Rank, rng: &mut Rng, sp: &SP)
where
    A: Flt,
    P: Val,
    S: Val,
    SP: BaseSpaceMpi<A, 2> + BaseSpaceTransform<A, 2, Physical = P, Spectral = S>,
{
    for _ in 0..rng.range(2, 4) {
        let (l1, l2, l3) = (r.layout(), r.layout(), r.layout());
        let salt = r.fresh();
        let phys = rng.coin();
        let start_x = rng.coin();
        macro_rules! both {
            ($t:ty, $shape:expr, $xy:ident, $yx:ident) => {{
                let g = $shape;
                let d = sp.get_decomp_from_global_shape(&g);
                if start_x {
                    let y = moved!(r, stringify!($xy), $t, owned(&d.x_pencil, g, salt, l1), Buf::dirty(d.y_pencil.sz, l2), |a, b| sp.$xy(a, b));
                    r.put_block(stringify!($xy), &d.y_pencil, g, salt, &y.view());
                    let x = moved!(r, stringify!($yx), $t, y, Buf::dirty(d.x_pencil.sz, l3), |a, b| sp.$yx(a, b));
                    r.put_block(concat!("back by ", stringify!($yx)), &d.x_pencil, g, salt, &x.view());
                } else {
                    let x = moved!(r, stringify!($yx), $t, owned(&d.y_pencil, g, salt, l1), Buf::dirty(d.x_pencil.sz, l2), |a, b| sp.$yx(a, b));
                    r.put_block(stringify!($yx), &d.x_pencil, g, salt, &x.view());
                    let y = moved!(r, stringify!($xy), $t, x, Buf::dirty(d.y_pencil.sz, l3), |a, b| sp.$xy(a, b));
                    r.put_block(concat!("back by ", stringify!($xy)), &d.y_pencil, g, salt, &y.view());
                }
            }};
        }
        if phys {
            both!(P, sp.shape_physical(), transpose_x_to_y_phys, transpose_y_to_x_phys);
        } else {
            both!(S, sp.shape_spectral(), transpose_x_to_y_spec, transpose_y_to_x_spec);
        }
    }
}

fn c18<A, P, S, SP>(r: &mut Rank, rng: &mut Rng, sp: &SP)
where
    A: Flt,
    P: Val,
    S: Val,
    SP: BaseSpaceMpi<A, 2> + BaseSpaceTransform<A, 2, Physical = P, Spectral = S>,
{
    for _ in 0..rng.range(4, 7) {
        let (l1, l2) = (r.layout(), r.layout());
        let salt = r.fresh();
        let root = r.rank == 0;
        let op = rng.below(3);
        let (phys, x) = (rng.coin(), rng.coin());
        r.delay();
        macro_rules! one {
            ($t:ty, $shape:expr, $pen:ident, $g:ident, $gr:ident, $s:ident, $sr:ident, $ag:ident) => {{
                let g = $shape;
                let d: &Decomp2d = sp.get_decomp_from_global_shape(&g);
                let p = &d.$pen;
                match op {
                    0 => {
                        let src: Buf<$t> = owned(p, g, salt, l1);
                        let before = vals(&src.view());
                        if root {
                            let mut a: Buf<$t> = Buf::dirty(g, l2);
                            steady(stringify!($gr), &mut a, |o| sp.$gr(&src.view(), o));
                            r.check(a.margin_ok(), || format!("{}: wrote next to its output", stringify!($gr)));
                            r.put_whole(ROOT, stringify!($g), g, salt, &a.view());
                        } else {
                            sp.$g(&src.view());
                            r.leaf::<$t>(stringify!($g));
                        }
                        r.kept(stringify!($g), &src, &before);
                    }
                    1 => {
                        let mut a: Buf<$t> = Buf::dirty(p.sz, l2);
                        if root {
                            let src: Buf<$t> = global(g, salt, l1);
                            let before = vals(&src.view());
                            steady(stringify!($sr), &mut a, |o| sp.$sr(&src.view(), o));
                            r.kept(stringify!($sr), &src, &before);
                        } else {
                            steady(stringify!($s), &mut a, |o| sp.$s(o));
                        }
                        r.check(a.margin_ok(), || format!("{}: wrote next to its output", stringify!($s)));
                        r.put_block(stringify!($s), p, g, salt, &a.view());
                    }
                    _ => {
                        let a = moved!(r, stringify!($ag), $t, owned(p, g, salt, l1), Buf::dirty(g, l2), |a, b| sp.$ag(a, b));
                        r.put_whole(FULL, stringify!($ag), g, salt, &a.view());
                    }
                }
            }};
        }
        match (phys, x) {
            (true, true) => one!(P, sp.shape_physical(), x_pencil, gather_from_x_pencil_phys, gather_from_x_pencil_phys_root, scatter_to_x_pencil_phys, scatter_to_x_pencil_phys_root, all_gather_from_x_pencil_phys),
            (true, false) => one!(P, sp.shape_physical(), y_pencil, gather_from_y_pencil_phys, gather_from_y_pencil_phys_root, scatter_to_y_pencil_phys, scatter_to_y_pencil_phys_root, all_gather_from_y_pencil_phys),
            (false, true) => one!(S, sp.shape_spectral(), x_pencil, gather_from_x_pencil_spec, gather_from_x_pencil_spec_root, scatter_to_x_pencil_spec, scatter_to_x_pencil_spec_root, all_gather_from_x_pencil_spec),
            (false, false) => one!(S, sp.shape_spectral(), y_pencil, gather_from_y_pencil_spec, gather_from_y_pencil_spec_root, scatter_to_y_pencil_spec, scatter_to_y_pencil_spec_root, all_gather_from_y_pencil_spec),
        }
    }
}

fn c23<A, P, S, SP>(r: &mut Rank, rng: &mut Rng, sp: &SP)
where
    A: Flt,
    P: Val,
    S: Val,
    SP: BaseSpaceMpi<A, 2> + BaseSpaceTransform<A, 2, Physical = P, Spectral = S>,
{
    let (gp, gs) = (sp.shape_physical(), sp.shape_spectral());
    for _ in 0..rng.range(3, 6) {
        let mut own = r.own.clone();
        let yp = sp.shape_physical_y_pen();
        let xs = sp.shape_spectral_x_pen();
        let orth = sp.get_decomp_from_global_shape(&sp.shape_spectral_ortho()).x_pencil.sz;
        let (ypb, xsb, orb) = (off(rng, yp, &mut own), off(rng, xs, &mut own), off(rng, orth, &mut own));
        let z = |s: [usize; 2]| Array2::<S>::zeros(s);
        let zp = |s: [usize; 2]| Array2::<P>::zeros(s);
        match rng.below(10) {
            0 => r.refused("forward, wrong source", || drop(sp.forward_mpi(&zp(ypb)))),
            1 => r.refused("forward inplace, wrong source", || sp.forward_inplace_mpi(&zp(ypb), &mut z(xs))),
            2 => r.refused("forward inplace, wrong target", || sp.forward_inplace_mpi(&zp(yp), &mut z(xsb))),
            3 => r.refused("backward, wrong source", || drop(sp.backward_mpi(&z(xsb)))),
            4 => r.refused("backward inplace, wrong target", || sp.backward_inplace_mpi(&z(xs), &mut zp(ypb))),
            5 => r.refused("to_ortho, wrong source", || drop(sp.to_ortho_mpi(&z(xsb)))),
            6 => r.refused("to_ortho inplace, wrong target", || sp.to_ortho_inplace_mpi(&z(xs), &mut z(orb))),
            7 => r.refused("from_ortho, wrong source", || drop(sp.from_ortho_mpi(&z(orb)))),
            8 => r.refused("from_ortho inplace, wrong target", || sp.from_ortho_inplace_mpi(&z(orth), &mut z(xsb))),
            _ => r.refused("gradient, wrong source", || drop(sp.gradient_mpi(&z(xsb), [1, 1], None))),
        }
        // unknown shapes have no decomposition
        let odd = [gp[0] + gs[0] + 1, gp[1] + gs[1] + 1];
        r.refused("lookup of an unknown shape", || {
            let _ = sp.get_decomp_from_global_shape(&odd);
        });
        let salt = r.fresh();
        let d = sp.get_decomp_from_global_shape(&gp);
        let (l1, l2) = (r.layout(), r.layout());
        let a = moved!(r, "all_gather", P, owned(&d.y_pencil, gp, salt, l1), Buf::dirty(gp, l2), |a, b| sp.all_gather_from_y_pencil_phys(a, b));
        r.put_whole(FULL, "all_gather after a refused call", gp, salt, &a.view());
    }
}

// ------------------------------------------------------------------ C19

fn biggest<T: Elem>(a: &ArrayView2<T>) -> f64 {
    a.iter().map(|x| { let (a, b) = x.read(); a.hypot(b) }).fold(0., f64::max)
}

fn c19<A, P, S, SP, R>(r: &mut Rank, rng: &mut Rng, sp: &SP, rf: &R, name: &str)
where
    A: Flt + std::fmt::Display,
    P: Val,
    S: Val,
    SP: BaseSpaceMpi<A, 2> + BaseSpaceTransform<A, 2, Physical = P, Spectral = S>,
    R: BaseSpace<A, 2> + BaseSpaceTransform<A, 2, Physical = P, Spectral = S>,
{
    let (gp, gs, go) = (rf.shape_physical(), rf.shape_spectral(), rf.shape_spectral_ortho());
    // what it says about itself
    r.check(sp.get_nprocs() == r.np && sp.get_nrank() == r.rank, || format!("{name}: process count or rank"));
    r.check(sp.shape_physical() == gp && sp.shape_spectral() == gs && sp.shape_spectral_ortho() == go, || format!("{name}: global shapes"));
    let (dp, ds) = (sp.get_decomp_from_global_shape(&gp), sp.get_decomp_from_global_shape(&gs));
    r.check(dp.n_global == gp && ds.n_global == gs, || format!("{name}: decomposition of another shape"));
    for (what, shape, arr, want) in [
        ("phys x", sp.shape_physical_x_pen(), sp.ndarray_physical_x_pen().shape().to_vec(), dp.x_pencil.sz),
        ("phys y", sp.shape_physical_y_pen(), sp.ndarray_physical_y_pen().shape().to_vec(), dp.y_pencil.sz),
        ("spec x", sp.shape_spectral_x_pen(), sp.ndarray_spectral_x_pen().shape().to_vec(), ds.x_pencil.sz),
        ("spec y", sp.shape_spectral_y_pen(), sp.ndarray_spectral_y_pen().shape().to_vec(), ds.y_pencil.sz),
    ] {
        r.check(shape == want && arr == want, || format!("{name}: {what} pencil reported {shape:?}, array {arr:?}, owned {want:?}"));
    }
    serial(r, rng, sp, rf, name);

    // global inputs, the same on every rank
    let fp: Array2<P> = field(rng, gp);
    let fs: Array2<S> = field(rng, gs);
    let fo: Array2<S> = field(rng, go);
    let d_orth = sp.get_decomp_from_global_shape(&go);
    let calls = rng.range(6, 9);
    let mut order: Vec<usize> = (0..calls).map(|_| rng.below(9)).collect();
    order.insert(0, rng.below(2)); // at least one forward
    for call in order {
        r.delay();
        macro_rules! piece {
            ($d:expr, $f:expr, $pen:ident) => {{
                let st = $d.$pen.st;
                let l = r.layout_std();
                Buf::new($d.$pen.sz, l, |i, j| $f[[st[0] + i, st[1] + j]])
            }};
        }
        macro_rules! result {
            ($op:expr, $d:expr, $pen:ident, $got:expr, $want:expr) => {{
                let op = format!("{name} {}", $op);
                let got = $got;
                r.check(got.shape() == $d.$pen.sz, || format!("{op}: shape {:?}, owned {:?}", got.shape(), $d.$pen.sz));
                if r.rank == 0 {
                    let w = $want;
                    let tol = A::TOL * biggest(&w.view());
                    r.log.put(REF, &op, A::NAME, [[0, 0], $d.n_global, $d.n_global], tol, vals(&w.view()).into_iter());
                }
                let place = [$d.$pen.st, $d.$pen.sz, $d.n_global];
                r.log.put("piece", &op, A::NAME, place, 0., vals(&got.view()).into_iter());
            }};
        }
        match call {
            0 => {
                let src: Buf<P> = piece!(dp, fp, y_pencil);
                let before = vals(&src.view());
                let o = sp.forward_mpi(&src.view());
                r.kept("forward", &src, &before);
                result!("forward", ds, x_pencil, o, rf.forward(&fp));
            }
            1 => {
                let l = r.layout_std();
                let o = moved!(r, "forward inplace", _, Wrap::a(piece!(dp, fp, y_pencil)), Buf::<S>::dirty(ds.x_pencil.sz, l), |a, b| sp.forward_inplace_mpi(a, b));
                result!("forward inplace", ds, x_pencil, o.view(), rf.forward(&fp));
            }
            2 => {
                let src: Buf<S> = piece!(ds, fs, x_pencil);
                let before = vals(&src.view());
                let o = sp.backward_mpi(&src.view());
                r.kept("backward", &src, &before);
                result!("backward", dp, y_pencil, o, rf.backward(&fs));
            }
            3 => {
                let l = r.layout_std();
                let o = moved!(r, "backward inplace", _, Wrap::a(piece!(ds, fs, x_pencil)), Buf::<P>::dirty(dp.y_pencil.sz, l), |a, b| sp.backward_inplace_mpi(a, b));
                result!("backward inplace", dp, y_pencil, o.view(), rf.backward(&fs));
            }
            4 => {
                let src: Buf<S> = piece!(ds, fs, x_pencil);
                let before = vals(&src.view());
                let o = sp.to_ortho_mpi(&src.view());
                r.kept("to_ortho", &src, &before);
                result!("to_ortho", d_orth, x_pencil, o, rf.to_ortho(&fs));
            }
            5 => {
                let l = r.layout_std();
                let o = moved!(r, "to_ortho inplace", _, Wrap::a(piece!(ds, fs, x_pencil)), Buf::<S>::dirty(d_orth.x_pencil.sz, l), |a, b| sp.to_ortho_inplace_mpi(a, b));
                result!("to_ortho inplace", d_orth, x_pencil, o.view(), rf.to_ortho(&fs));
            }
            6 => {
                let src: Buf<S> = piece!(d_orth, fo, x_pencil);
                let before = vals(&src.view());
                let o = sp.from_ortho_mpi(&src.view());
                r.kept("from_ortho", &src, &before);
                result!("from_ortho", ds, x_pencil, o, rf.from_ortho(&fo));
            }
            7 => {
                let l = r.layout_std();
                let o = moved!(r, "from_ortho inplace", _, Wrap::a(piece!(d_orth, fo, x_pencil)), Buf::<S>::dirty(ds.x_pencil.sz, l), |a, b| sp.from_ortho_inplace_mpi(a, b));
                result!("from_ortho inplace", ds, x_pencil, o.view(), rf.from_ortho(&fo));
            }
            _ => {
                let der = [rng.below(5), rng.below(5)];
                let mut one = || {
                    let s = [0.5, 1., 1.25, 3., 0.01, 40.][rng.below(6)];
                    A::of(if rng.below(3) == 0 { -s } else { s })
                };
                let scale = [one(), one()];
                let scale = if rng.below(3) > 0 { Some(scale) } else { None };
                let src: Buf<S> = piece!(ds, fs, x_pencil);
                let before = vals(&src.view());
                let o = sp.gradient_mpi(&src.view(), der, scale);
                r.kept("gradient", &src, &before);
                result!(format!("gradient {der:?} {}", if scale.is_some() { "scaled" } else { "plain" }), d_orth, x_pencil, o, rf.gradient(&fs, der, scale));
            }
        }
    }
}

/// Helps type inference in `moved!`
struct Wrap;
impl Wrap {
    fn a<T>(b: T) -> T {
        b
    }
}

impl Rank<'_> {
    /// transforms work on standard layout
    fn layout_std(&mut self) -> usize {
        0
    }
}

/// The serial calls of the distributed space, on this rank alone.
fn serial<A, P, S, SP, R>(r: &mut Rank, rng: &mut Rng, sp: &SP, rf: &R, name: &str)
where
    A: Flt,
    P: Val,
    S: Val,
    SP: BaseSpaceMpi<A, 2> + BaseSpaceTransform<A, 2, Physical = P, Spectral = S>,
    R: BaseSpace<A, 2> + BaseSpaceTransform<A, 2, Physical = P, Spectral = S>,
{
    let (gp, gs, go) = (rf.shape_physical(), rf.shape_spectral(), rf.shape_spectral_ortho());
    let fp: Array2<P> = field(rng, gp);
    let fs: Array2<S> = field(rng, gs);
    let fo: Array2<S> = field(rng, go);
    let der = [rng.below(4), rng.below(4)];
    let scale = Some([A::of(if rng.coin() { 2. } else { -2. }), A::of(if rng.coin() { 0.75 } else { -0.01 })]);
    // the ranks share the work
    let turn = (r.rank + rng.below(4)) % 4;
    match turn {
        0 => {
            same(r, name, "coords", &[0, 1].map(|i| sp.coords_axis(i).to_vec()).concat(), &[0, 1].map(|i| rf.coords_axis(i).to_vec()).concat());
            same(r, name, "coords", &sp.coords().map(|x| x.to_vec()).concat(), &rf.coords().map(|x| x.to_vec()).concat());
            for i in 0..2 {
                r.check(sp.base_kind(i) as u8 == rf.base_kind(i) as u8 && sp.transform_kind(i) as u8 == rf.transform_kind(i) as u8, || format!("{name}: kind of axis {i}"));
                near(r, name, "stencil", &sp.stencil(i).view(), &rf.stencil(i).view());
                near(r, name, "stencil_inv", &sp.stencil_inv(i).view(), &rf.stencil_inv(i).view());
                {
                    near(r, name, "laplacian", &sp.laplacian(i).view(), &rf.laplacian(i).view());
                    let (a, b) = sp.laplacian_pinv(i);
                    let (c, d) = rf.laplacian_pinv(i);
                    near(r, name, "laplacian_pinv", &a.view(), &c.view());
                    near(r, name, "laplacian_pinv", &b.view(), &d.view());
                }
            }
            r.check(sp.ndarray_physical().shape() == gp && sp.ndarray_spectral().shape() == gs, || format!("{name}: arrays"));
        }
        1 => {
            let w = rf.forward(&fp);
            near(r, name, "forward serial", &sp.forward(&fp).view(), &w.view());
            near(r, name, "forward_par", &sp.forward_par(&fp).view(), &w.view());
            for par in [false, true] {
                let mut o = Array2::from_elem(gs, S::dirt());
                if par { sp.forward_inplace_par(&fp, &mut o) } else { sp.forward_inplace(&fp, &mut o) }
                near(r, name, "forward_inplace", &o.view(), &w.view());
            }
            let w = rf.backward(&fs);
            near(r, name, "backward serial", &sp.backward(&fs).view(), &w.view());
            near(r, name, "backward_par", &sp.backward_par(&fs).view(), &w.view());
            for par in [false, true] {
                let mut o = Array2::from_elem(gp, P::dirt());
                if par { sp.backward_inplace_par(&fs, &mut o) } else { sp.backward_inplace(&fs, &mut o) }
                near(r, name, "backward_inplace", &o.view(), &w.view());
            }
        }
        2 => {
            let w = rf.to_ortho(&fs);
            near(r, name, "to_ortho serial", &sp.to_ortho(&fs).view(), &w.view());
            near(r, name, "to_ortho_par", &sp.to_ortho_par(&fs).view(), &w.view());
            for par in [false, true] {
                let mut o = Array2::from_elem(go, S::dirt());
                if par { sp.to_ortho_inplace_par(&fs, &mut o) } else { sp.to_ortho_inplace(&fs, &mut o) }
                near(r, name, "to_ortho_inplace", &o.view(), &w.view());
            }
            let w = rf.from_ortho(&fo);
            near(r, name, "from_ortho serial", &sp.from_ortho(&fo).view(), &w.view());
            near(r, name, "from_ortho_par", &sp.from_ortho_par(&fo).view(), &w.view());
            for par in [false, true] {
                let mut o = Array2::from_elem(gs, S::dirt());
                if par { sp.from_ortho_inplace_par(&fo, &mut o) } else { sp.from_ortho_inplace(&fo, &mut o) }
                near(r, name, "from_ortho_inplace", &o.view(), &w.view());
            }
        }
        _ => {
            for sc in [None, scale] {
                let w = rf.gradient(&fs, der, sc);
                near(r, name, "gradient serial", &sp.gradient(&fs, der, sc).view(), &w.view());
                near(r, name, "gradient_par", &sp.gradient_par(&fs, der, sc).view(), &w.view());
            }
        }
    }
    r.log.put("local", &format!("{name} serial part {turn}"), A::NAME, [[0; 2]; 3], 0., std::iter::empty());
}

fn same<A: Flt>(r: &Rank, name: &str, what: &str, a: &[A], b: &[A]) {
    r.check(a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x.read().0 - y.read().0).abs() <= A::TOL), || format!("{name}: {what} differ from the serial space"));
}

fn near<T: Elem>(r: &Rank, name: &str, what: &str, a: &ArrayView2<T>, b: &ArrayView2<T>) {
    let single = T::NAME == "f32" || T::NAME == "c32";
    let tol = biggest(b) * if single { f32::TOL } else { f64::TOL };
    r.check(a.shape() == b.shape(), || format!("{name}: {what}: shape {:?}, serial space {:?}", a.shape(), b.shape()));
    for ((i, x), y) in a.indexed_iter().zip(b.iter()) {
        let (x, y) = (x.read(), y.read());
        r.check((x.0 - y.0).abs() <= tol && (x.1 - y.1).abs() <= tol, || format!("{name}: {what} at {i:?}: {x:?}, serial space {y:?}"));
    }
}
