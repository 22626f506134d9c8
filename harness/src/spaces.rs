//! Uniform handles on every space the library can build.
use crate::gen::Rng;
use crate::nd::{r2r, Make, Op1, OpVisitor};
use crate::num::{Real, Scal};
use crate::oracle::Kind;
use funspace::enums::TransformKind;
use funspace::*;
use ndarray::{Array2, ArrayD, ArrayViewD, Axis, Dim, Dimension, IxDyn};
use num_complex::Complex;
use std::any::Any;

/// How an operation is invoked
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Alloc,
    Inplace,
    AllocPar,
    InplacePar,
}
pub const MODES: [Mode; 4] = [Mode::Alloc, Mode::Inplace, Mode::AllocPar, Mode::InplacePar];

pub trait SpaceObj<A, P, S>: Send + Sync {
    fn phys(&self) -> Vec<usize>;
    fn spec(&self) -> Vec<usize>;
    fn orth(&self) -> Vec<usize>;
    fn nd_phys(&self) -> ArrayD<P>;
    fn nd_spec(&self) -> ArrayD<S>;
    fn nd_shape(&self, s: &[usize]) -> ArrayD<S>;
    fn coords(&self) -> Vec<Vec<A>>;
    fn coords_axis(&self, axis: usize) -> Vec<A>;
    fn kind(&self, axis: usize) -> (BaseKind, TransformKind);
    fn stencil(&self, axis: usize) -> Array2<A>;
    fn stencil_inv(&self, axis: usize) -> Array2<A>;
    fn laplacian(&self, axis: usize) -> Array2<A>;
    fn laplacian_pinv(&self, axis: usize) -> (Array2<A>, Array2<A>);
    /// `out`: shape and content of the target for in-place modes
    fn forward(&self, a: ArrayViewD<P>, m: Mode, out: Option<ArrayD<S>>) -> ArrayD<S>;
    fn backward(&self, a: ArrayViewD<S>, m: Mode, out: Option<ArrayD<P>>) -> ArrayD<P>;
    fn to_ortho(&self, a: ArrayViewD<S>, m: Mode, out: Option<ArrayD<S>>) -> ArrayD<S>;
    fn from_ortho(&self, a: ArrayViewD<S>, m: Mode, out: Option<ArrayD<S>>) -> ArrayD<S>;
    fn gradient(&self, a: ArrayViewD<S>, d: &[usize], scale: Option<&[A]>, par: bool) -> ArrayD<S>;
    fn dup(&self) -> Box<dyn SpaceObj<A, P, S>>;
}

struct Wrap<SP, const N: usize>(SP);

fn arr<T: Copy, const N: usize>(v: &[T]) -> [T; N] {
    v.try_into().expect("FSMON: dimension")
}

macro_rules! four {
    ($self:ident, $a:ident, $m:ident, $out:ident, $def:expr, $alloc:ident, $inplace:ident, $alloc_par:ident, $inplace_par:ident) => {{
        let a = $a.into_dimensionality::<Dim<[usize; N]>>().expect("FSMON: ndim");
        let out = || -> ndarray::Array<_, Dim<[usize; N]>> {
            match &$out {
                Some(o) => o.clone().into_dimensionality().expect("FSMON: ndim"),
                None => {
                    let mut o = $self.0.ndarray_from_shape($def);
                    o.fill(Scal::nan());
                    o
                }
            }
        };
        match $m {
            Mode::Alloc => $self.0.$alloc(&a).into_dyn(),
            Mode::AllocPar => $self.0.$alloc_par(&a).into_dyn(),
            Mode::Inplace => {
                let mut o = out();
                $self.0.$inplace(&a, &mut o);
                o.into_dyn()
            }
            Mode::InplacePar => {
                let mut o = out();
                $self.0.$inplace_par(&a, &mut o);
                o.into_dyn()
            }
        }
    }};
}

impl<A, SP, const N: usize> SpaceObj<A, SP::Physical, SP::Spectral> for Wrap<SP, N>
where
    A: Real,
    SP: BaseSpace<A, N> + Send + Sync + 'static,
    SP::Physical: Scal,
    SP::Spectral: Scal,
    Dim<[usize; N]>: Dimension,
{
    fn phys(&self) -> Vec<usize> {
        self.0.shape_physical().to_vec()
    }
    fn spec(&self) -> Vec<usize> {
        self.0.shape_spectral().to_vec()
    }
    fn orth(&self) -> Vec<usize> {
        self.0.shape_spectral_ortho().to_vec()
    }
    fn nd_phys(&self) -> ArrayD<SP::Physical> {
        self.0.ndarray_physical().into_dyn()
    }
    fn nd_spec(&self) -> ArrayD<SP::Spectral> {
        self.0.ndarray_spectral().into_dyn()
    }
    fn nd_shape(&self, s: &[usize]) -> ArrayD<SP::Spectral> {
        self.0.ndarray_from_shape::<SP::Spectral>(arr(s)).into_dyn()
    }
    fn coords(&self) -> Vec<Vec<A>> {
        self.0.coords().iter().map(|c| c.to_vec()).collect()
    }
    fn coords_axis(&self, axis: usize) -> Vec<A> {
        self.0.coords_axis(axis).to_vec()
    }
    fn kind(&self, axis: usize) -> (BaseKind, TransformKind) {
        (self.0.base_kind(axis), self.0.transform_kind(axis))
    }
    fn stencil(&self, axis: usize) -> Array2<A> {
        self.0.stencil(axis)
    }
    fn stencil_inv(&self, axis: usize) -> Array2<A> {
        self.0.stencil_inv(axis)
    }
    fn laplacian(&self, axis: usize) -> Array2<A> {
        self.0.laplacian(axis)
    }
    fn laplacian_pinv(&self, axis: usize) -> (Array2<A>, Array2<A>) {
        self.0.laplacian_pinv(axis)
    }
    fn forward(&self, a: ArrayViewD<SP::Physical>, m: Mode, out: Option<ArrayD<SP::Spectral>>) -> ArrayD<SP::Spectral> {
        four!(self, a, m, out, self.0.shape_spectral(), forward, forward_inplace, forward_par, forward_inplace_par)
    }
    fn backward(&self, a: ArrayViewD<SP::Spectral>, m: Mode, out: Option<ArrayD<SP::Physical>>) -> ArrayD<SP::Physical> {
        four!(self, a, m, out, self.0.shape_physical(), backward, backward_inplace, backward_par, backward_inplace_par)
    }
    fn to_ortho(&self, a: ArrayViewD<SP::Spectral>, m: Mode, out: Option<ArrayD<SP::Spectral>>) -> ArrayD<SP::Spectral> {
        four!(self, a, m, out, self.0.shape_spectral_ortho(), to_ortho, to_ortho_inplace, to_ortho_par, to_ortho_inplace_par)
    }
    fn from_ortho(&self, a: ArrayViewD<SP::Spectral>, m: Mode, out: Option<ArrayD<SP::Spectral>>) -> ArrayD<SP::Spectral> {
        four!(self, a, m, out, self.0.shape_spectral(), from_ortho, from_ortho_inplace, from_ortho_par, from_ortho_inplace_par)
    }
    fn gradient(&self, a: ArrayViewD<SP::Spectral>, d: &[usize], scale: Option<&[A]>, par: bool) -> ArrayD<SP::Spectral> {
        let a = a.into_dimensionality::<Dim<[usize; N]>>().expect("FSMON: ndim");
        let (d, s) = (arr(d), scale.map(arr));
        if par {
            BaseSpaceGradient::<A, SP::Spectral, N>::gradient_par(&self.0, &a, d, s).into_dyn()
        } else {
            BaseSpaceGradient::<A, SP::Spectral, N>::gradient(&self.0, &a, d, s).into_dyn()
        }
    }
    fn dup(&self) -> Box<dyn SpaceObj<A, SP::Physical, SP::Spectral>> {
        Box::new(Wrap::<SP, N>(self.0.clone()))
    }
}

pub struct Case<A, P, S> {
    pub name: String,
    pub kinds: Vec<Kind>,
    pub ns: Vec<usize>,
    pub obj: Box<dyn SpaceObj<A, P, S>>,
}

pub trait SpaceVisitor<A: Real> {
    fn visit<P: Scal, S: Scal>(&mut self, c: &Case<A, P, S>);
}

/// The space types: kinds per axis, `None` stands for any real-to-real base
pub const TYPES: [&[Option<Kind>]; 12] = {
    const R: Option<Kind> = None;
    const H: Option<Kind> = Some(Kind::R2c);
    const Z: Option<Kind> = Some(Kind::C2c);
    [&[R], &[H], &[Z], &[R, R], &[H, R], &[Z, H], &[Z, Z], &[R, R, R], &[H, R, R], &[Z, H, R], &[Z, Z, H], &[Z, Z, Z]]
};

/// A random choice of bases and sizes for a space type
pub fn pick(rng: &mut Rng, ty: usize, max: usize) -> (Vec<Kind>, Vec<usize>) {
    let kinds: Vec<Kind> = TYPES[ty].iter().map(|k| k.unwrap_or_else(|| *rng.pick(&Kind::R2R))).collect();
    let lo = kinds.iter().map(|k| k.min_n()).max().unwrap();
    let same = rng.below(3) == 0;
    let common = rng.range(lo, max.max(lo + 2));
    // now and then one long axis among short ones, or everything larger
    if kinds.len() > 1 && rng.below(8) == 0 {
        let long = rng.below(kinds.len() + 1);
        let ns = kinds.iter().enumerate().map(|(i, k)| {
            let m = k.min_n();
            if i == long {
                rng.range(m.max(max), 6 * max)
            } else if long == kinds.len() {
                rng.range(m.max(max), 2 * max)
            } else {
                rng.range(m, m + 4)
            }
        }).collect();
        return (kinds, ns);
    }
    let ns = kinds.iter().map(|k| if same { common } else { rng.range(k.min_n(), max.max(k.min_n() + 3)) }).collect();
    (kinds, ns)
}

/// A space with its physical / spectral scalar types
pub enum AnySpace<A> {
    R(Case<A, A, A>),
    H(Case<A, A, Complex<A>>),
    Z(Case<A, Complex<A>, Complex<A>>),
}

/// Only called by the implementations of [`Real`]
pub fn build<A: Real>(kinds: &[Kind], ns: &[usize]) -> AnySpace<A>
where
    Complex<A>: Scal,
{
    let name = format!("Space{}({})", kinds.len(), kinds.iter().zip(ns).map(|(k, n)| format!("{k:?}:{n}")).collect::<Vec<_>>().join(","));
    macro_rules! go {
        ($var:ident, $n:literal, $s:expr) => {
            AnySpace::$var(Case { name, kinds: kinds.to_vec(), ns: ns.to_vec(), obj: Box::new(Wrap::<_, $n>($s)) })
        };
    }
    let r = |i: usize| r2r::<A>(kinds[i], ns[i]);
    let h = |i: usize| fourier_r2c::<A>(ns[i]);
    let z = |i: usize| fourier_c2c::<A>(ns[i]);
    let t = |k: Kind| match k {
        Kind::R2c => 'h',
        Kind::C2c => 'z',
        _ => 'r',
    };
    match kinds.iter().map(|k| t(*k)).collect::<String>().as_str() {
        "r" => go!(R, 1, Space1::new(&r(0))),
        "h" => go!(H, 1, Space1::new(&h(0))),
        "z" => go!(Z, 1, Space1::new(&z(0))),
        "rr" => go!(R, 2, Space2::new(&r(0), &r(1))),
        "hr" => go!(H, 2, Space2::new(&h(0), &r(1))),
        "zh" => go!(H, 2, Space2::new(&z(0), &h(1))),
        "zz" => go!(Z, 2, Space2::new(&z(0), &z(1))),
        _ if A::SPACES < TYPES.len() => panic!("FSMON: not compiled"),
        "rrr" => go!(R, 3, Space3::new(&r(0), &r(1), &r(2))),
        "hrr" => go!(H, 3, Space3::new(&h(0), &r(1), &r(2))),
        "zhr" => go!(H, 3, Space3::new(&z(0), &h(1), &r(2))),
        "zzh" => go!(H, 3, Space3::new(&z(0), &z(1), &h(2))),
        "zzz" => go!(Z, 3, Space3::new(&z(0), &z(1), &z(2))),
        other => panic!("FSMON: no such space {other}"),
    }
}

pub fn visit_space<A: Real, V: SpaceVisitor<A>>(kinds: &[Kind], ns: &[usize], v: &mut V)
where
    Complex<A>: Scal,
{
    match A::space(kinds, ns) {
        AnySpace::R(c) => v.visit(&c),
        AnySpace::H(c) => v.visit(&c),
        AnySpace::Z(c) => v.visit(&c),
    }
}

// ------------------------------------------------------------ reference

struct Find<'a, TI, TO> {
    name: &'a str,
    hit: Option<Op1<TI, TO>>,
}
impl<TI: Scal, TO: Scal> OpVisitor for Find<'_, TI, TO> {
    fn visit<X: Scal, Y: Scal>(&mut self, op: &Op1<X, Y>) {
        if op.name == self.name && self.hit.is_none() {
            if let Some(o) = (op as &dyn Any).downcast_ref::<Op1<TI, TO>>() {
                self.hit = Some(o.clone());
            }
        }
    }
}

pub fn find_op<A: Real, TI: Scal, TO: Scal>(kind: Kind, n: usize, name: &str) -> Option<Op1<TI, TO>>
where
    Complex<A>: Scal,
{
    let d: Vec<usize> = name.strip_prefix("gradient").map(|d| d.parse().unwrap()).into_iter().collect();
    let mut f = Find::<TI, TO> { name, hit: None };
    A::base(kind, n, Make::Struct).visit(&d, &mut f);
    f.hit
}

/// Array of either scalar type
#[derive(Clone)]
pub enum Any2<A: Real>
where
    Complex<A>: Scal,
{
    R(ArrayD<A>),
    C(ArrayD<Complex<A>>),
}

fn along<TI: Scal, TO: Scal>(op: &Op1<TI, TO>, a: &ArrayD<TI>, axis: usize) -> ArrayD<TO> {
    let mut s = a.shape().to_vec();
    s[axis] = op.nout;
    let mut out = ArrayD::from_elem(IxDyn(&s), TO::nan());
    for (x, mut y) in a.lanes(Axis(axis)).into_iter().zip(out.lanes_mut(Axis(axis))) {
        for (p, q) in y.iter_mut().zip(op.run(&x.to_vec())) {
            *p = q;
        }
    }
    out
}

/// One operation of the base of one axis, lane by lane through the slice form
pub fn apply<A: Real>(a: Any2<A>, kind: Kind, n: usize, name: &str, axis: usize) -> Any2<A>
where
    Complex<A>: Scal,
{
    match a {
        Any2::R(a) => {
            if let Some(op) = find_op::<A, A, A>(kind, n, name) {
                return Any2::R(along(&op, &a, axis));
            }
            let op = find_op::<A, A, Complex<A>>(kind, n, name).expect("FSMON: no op");
            Any2::C(along(&op, &a, axis))
        }
        Any2::C(a) => {
            if let Some(op) = find_op::<A, Complex<A>, Complex<A>>(kind, n, name) {
                return Any2::C(along(&op, &a, axis));
            }
            let op = find_op::<A, Complex<A>, A>(kind, n, name).expect("FSMON: no op");
            Any2::R(along(&op, &a, axis))
        }
    }
}

pub fn lift<A: Real, T: Scal>(a: &ArrayD<T>) -> Any2<A>
where
    Complex<A>: Scal,
{
    let x: &dyn Any = a;
    if let Some(r) = x.downcast_ref::<ArrayD<A>>() {
        Any2::R(r.clone())
    } else {
        Any2::C(x.downcast_ref::<ArrayD<Complex<A>>>().expect("FSMON: scalar").clone())
    }
}
pub fn lower<A: Real, T: Scal>(a: Any2<A>) -> ArrayD<T>
where
    Complex<A>: Scal,
{
    let x: Box<dyn Any> = match a {
        Any2::R(r) => Box::new(r),
        Any2::C(c) => Box::new(c),
    };
    *x.downcast::<ArrayD<T>>().expect("FSMON: the reference produced the other scalar type")
}
