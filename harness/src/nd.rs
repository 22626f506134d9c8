//! Uniform, type-erased handles on every public 1-D operation of a base: the
//! slice form and the N-dimensional forms (allocating / in place, serial /
//! parallel).  Everything generic of the library is instantiated here, once.
use crate::num::{Real, Scal, C};
use crate::oracle::Kind;
use funspace::enums::TransformKind;
use funspace::*;
use ndarray::{Array2, ArrayD, ArrayViewD, ArrayViewMutD, Axis, Ix1, Ix2, IxDyn};
use num_complex::Complex;
use std::sync::Arc;

type NdFn<TI, TO> =
    dyn Fn(ArrayViewD<TI>, Option<ArrayViewMutD<TO>>, usize, bool, usize) -> Option<ArrayD<TO>> + Send + Sync;
type SliceFn<TI, TO> = dyn Fn(&[TI], &mut [TO], usize) + Send + Sync;

#[derive(Clone)]
pub struct Op1<TI, TO> {
    pub name: String,
    pub kind: Kind,
    pub n: usize,
    pub nin: usize,
    pub nout: usize,
    d: usize,
    slice: Arc<SliceFn<TI, TO>>,
    nd: Arc<NdFn<TI, TO>>,
}

/// The different public routes into one and the same 1-D operation.
pub const ROUTES: usize = 8;
pub const ROUTE_NAMES: [&str; ROUTES] =
    ["slice", "1d", "1d-inplace", "2d-axis0", "2d-axis1-inplace", "3d-axis1", "1d-par", "2d-axis0-inplace-par"];

impl<TI: Scal, TO: Scal> Op1<TI, TO> {
    pub fn slice(&self, x: &[TI], y: &mut [TO]) {
        (self.slice)(x, y, self.d)
    }
    /// slice form into a fresh NaN-filled output
    pub fn run(&self, x: &[TI]) -> Vec<TO> {
        let mut y = vec![TO::nan(); self.nout];
        self.slice(x, &mut y);
        y
    }
    pub fn alloc(&self, a: ArrayViewD<TI>, axis: usize, par: bool) -> ArrayD<TO> {
        (self.nd)(a, None, axis, par, self.d).unwrap()
    }
    pub fn inplace(&self, a: ArrayViewD<TI>, o: ArrayViewMutD<TO>, axis: usize, par: bool) {
        (self.nd)(a, Some(o), axis, par, self.d);
    }
    pub fn label(&self) -> String {
        format!("{:?}({}) {} {}->{}", self.kind, self.n, self.name, TI::NAME, TO::NAME)
    }
    /// the same operation with another number of derivatives
    pub fn times(&self, d: usize) -> Self {
        Self { name: format!("gradient{d}"), d, ..self.clone() }
    }
    /// Apply to `x` through one of the [`ROUTES`]; in more than one dimension
    /// `x` is one lane among others
    pub fn route(&self, x: &[TI], route: usize, salt: usize) -> Vec<TO> {
        if route == 0 {
            return self.run(x);
        }
        let filler = |i: usize| -> TI {
            let t = ((i * 7919 + salt) % 1009) as f64 / 1009.0 - 0.5;
            TI::make(t, -t)
        };
        // shape, axis, position of the lane
        let w = 1 + salt % 4;
        let (mut s, axis, pos, par) = match route {
            1 | 2 | 6 => (vec![0], 0, vec![0], route == 6),
            3 => (vec![0, w], 0, vec![0, salt % w], false),
            4 => (vec![w, 0], 1, vec![salt % w, 0], false),
            5 => {
                let (w, h) = (1 + salt % 3, 1 + (salt / 3) % 3);
                (vec![w, 0, h], 1, vec![salt % w, 0, salt % h], false)
            }
            _ => {
                let w = 1 + salt % 9;
                (vec![0, w], 0, vec![0, salt % w], true)
            }
        };
        s[axis] = x.len();
        let mut k = 0;
        let mut a = ArrayD::from_shape_simple_fn(IxDyn(&s), || {
            k += 1;
            filler(k)
        });
        let lane = |i: usize| {
            let mut p = pos.clone();
            p[axis] = i;
            p
        };
        for (i, v) in x.iter().enumerate() {
            a[&lane(i)[..]] = *v;
        }
        let o = if route == 1 || route == 3 || route == 5 || route == 6 {
            self.alloc(a.view(), axis, par)
        } else {
            let mut t = s.clone();
            t[axis] = self.nout;
            let mut o = ArrayD::from_elem(IxDyn(&t), TO::nan());
            self.inplace(a.view(), o.view_mut(), axis, par);
            o
        };
        (0..o.len_of(Axis(axis))).map(|i| o[&lane(i)[..]]).collect()
    }
}

pub trait OpVisitor {
    fn visit<TI: Scal, TO: Scal>(&mut self, op: &Op1<TI, TO>);
}

macro_rules! fixed {
    ($dim:ty, $b:ident, $a:ident, $axis:ident, $f:ident $(, $x:expr)?) => {{
        let a = $a.into_dimensionality::<$dim>().unwrap();
        Some($b.$f(&a $(, $x)?, $axis).into_dyn())
    }};
}

/// How many of the generic instances of the drivers to compile: all
/// dimensions, or only the dynamic one
pub trait Dims {
    const ALL: bool;
}
pub struct Full;
pub struct DynOnly;
impl Dims for Full {
    const ALL: bool = true;
}
impl Dims for DynOnly {
    const ALL: bool = false;
}

macro_rules! mkop {
    ($dims:ty, $b:expr, $kind:expr, $n:expr, $name:expr, $d:ident, $ti:ty, $to:ty, $nin:expr, $nout:expr, $slice:expr,
     $alloc:ident, $inplace:ident, $alloc_par:ident, $inplace_par:ident $(, $x:expr)?) => {{
        let b = Arc::clone($b);
        let slice: Arc<SliceFn<$ti, $to>> = Arc::new($slice);
        let nd: Arc<NdFn<$ti, $to>> = Arc::new(
            move |a: ArrayViewD<$ti>, o: Option<ArrayViewMutD<$to>>, axis: usize, par: bool, $d: usize| -> Option<ArrayD<$to>> {
                let b = &*b;
                match o {
                    Some(mut o) => {
                        let was = (o.shape().to_vec(), o.strides().to_vec(), o.as_ptr());
                        if par { b.$inplace_par(&a, &mut o $(, $x)?, axis) } else { b.$inplace(&a, &mut o $(, $x)?, axis) }
                        let is = (o.shape().to_vec(), o.strides().to_vec(), o.as_ptr());
                        assert!(was == is, "shape, strides or memory of the output view changed from {was:?} to {is:?}");
                        None
                    }
                    // (branches on this constant are resolved before code is generated)
                    None if <$dims as Dims>::ALL => match (a.ndim(), par) {
                        (1, false) => fixed!(Ix1, b, a, axis, $alloc $(, $x)?),
                        (2, false) => fixed!(Ix2, b, a, axis, $alloc $(, $x)?),
                        (2, true) => fixed!(Ix2, b, a, axis, $alloc_par $(, $x)?),
                        (_, false) => fixed!(IxDyn, b, a, axis, $alloc $(, $x)?),
                        (_, true) => fixed!(IxDyn, b, a, axis, $alloc_par $(, $x)?),
                    },
                    None if par => fixed!(IxDyn, b, a, axis, $alloc_par $(, $x)?),
                    None => fixed!(IxDyn, b, a, axis, $alloc $(, $x)?),
                }
            },
        );
        Op1::<$ti, $to> { name: $name.to_string(), kind: $kind, n: $n, nin: $nin, nout: $nout, d: 1, slice, nd }
    }};
}

/// transforms of a base
pub fn transforms<M: Dims, B>(b: &Arc<B>, kind: Kind, n: usize) -> (Op1<B::Physical, B::Spectral>, Op1<B::Spectral, B::Physical>)
where
    B: BaseTransform + Send + Sync + 'static,
    B::Physical: Scal,
    B::Spectral: Scal,
{
    let s = Arc::clone(b);
    let t = Arc::clone(b);
    (
        mkop!(M, b, kind, n, "forward", _d, B::Physical, B::Spectral, b.len_phys(), b.len_spec(),
            move |x: &[B::Physical], y: &mut [B::Spectral], _| s.forward_slice(x, y),
            forward, forward_inplace, forward_par, forward_inplace_par),
        mkop!(M, b, kind, n, "backward", _d, B::Spectral, B::Physical, b.len_spec(), b.len_phys(),
            move |x: &[B::Spectral], y: &mut [B::Physical], _| t.backward_slice(x, y),
            backward, backward_inplace, backward_par, backward_inplace_par),
    )
}

/// Coefficient-space operations of a base for scalars `T`
#[derive(Clone)]
pub struct Spec<T> {
    pub to: Op1<T, T>,
    pub from: Op1<T, T>,
    pub grad: Op1<T, T>,
}

pub fn spectral<M: Dims, T: Scal, B>(b: &Arc<B>, kind: Kind, n: usize) -> Spec<T>
where
    B: BaseFromOrtho<T> + BaseGradient<T> + Send + Sync + 'static,
{
    let (s, t, u) = (Arc::clone(b), Arc::clone(b), Arc::clone(b));
    Spec {
        to: mkop!(M, b, kind, n, "to_ortho", _d, T, T, b.len_spec(), b.len_orth(),
            move |x: &[T], y: &mut [T], _| BaseFromOrtho::<T>::to_ortho_slice(&*s, x, y),
            to_ortho, to_ortho_inplace, to_ortho_par, to_ortho_inplace_par),
        from: mkop!(M, b, kind, n, "from_ortho", _d, T, T, b.len_orth(), b.len_spec(),
            move |x: &[T], y: &mut [T], _| BaseFromOrtho::<T>::from_ortho_slice(&*t, x, y),
            from_ortho, from_ortho_inplace, from_ortho_par, from_ortho_inplace_par),
        grad: mkop!(M, b, kind, n, "gradient1", d, T, T, b.len_spec(), b.len_orth(),
            move |x: &[T], y: &mut [T], d| BaseGradient::<T>::gradient_slice(&*u, x, y, d),
            gradient, gradient_inplace, gradient_par, gradient_inplace_par, d),
    }
}

/// What a base says about itself, and its explicit matrices
pub trait Elements<A>: Send + Sync {
    fn lens(&self) -> (usize, usize, usize);
    fn coords(&self) -> Vec<A>;
    fn base_kind(&self) -> BaseKind;
    fn transform_kind(&self) -> TransformKind;
    fn stencil(&self) -> Array2<A>;
    fn stencil_inv(&self) -> Array2<A>;
    fn laplacian(&self) -> Array2<A>;
    fn laplacian_pinv(&self) -> (Array2<A>, Array2<A>);
    fn diffmat(&self, d: usize) -> Array2<C>;
    fn diffmat_pinv(&self, d: usize) -> (Array2<C>, Array2<C>);
}

struct El<B>(Arc<B>);

fn as_c<T: Scal>(a: Array2<T>) -> Array2<C> {
    a.mapv(|v| {
        let (x, y) = v.parts();
        C::new(x, y)
    })
}

impl<A, B> Elements<A> for El<B>
where
    A: Real,
    B: BaseSize + BaseElements<RealNum = A> + BaseMatOpStencil<NumType = A> + BaseMatOpLaplacian<NumType = A> + BaseMatOpDiffmat + Send + Sync,
    <B as BaseMatOpDiffmat>::NumType: Scal,
{
    fn lens(&self) -> (usize, usize, usize) {
        (self.0.len_phys(), self.0.len_spec(), self.0.len_orth())
    }
    fn coords(&self) -> Vec<A> {
        self.0.coords()
    }
    fn base_kind(&self) -> BaseKind {
        self.0.base_kind()
    }
    fn transform_kind(&self) -> TransformKind {
        self.0.transform_kind()
    }
    fn stencil(&self) -> Array2<A> {
        self.0.stencil()
    }
    fn stencil_inv(&self) -> Array2<A> {
        self.0.stencil_inv()
    }
    fn laplacian(&self) -> Array2<A> {
        self.0.laplacian()
    }
    fn laplacian_pinv(&self) -> (Array2<A>, Array2<A>) {
        self.0.laplacian_pinv()
    }
    fn diffmat(&self, d: usize) -> Array2<C> {
        as_c(self.0.diffmat(d))
    }
    fn diffmat_pinv(&self, d: usize) -> (Array2<C>, Array2<C>) {
        let (p, i) = self.0.diffmat_pinv(d);
        (as_c(p), as_c(i))
    }
}

/// One base with its physical / spectral scalar types
pub struct Base1<A, P, S>
where
    Complex<A>: Sized,
{
    pub kind: Kind,
    pub n: usize,
    pub fwd: Op1<P, S>,
    pub bwd: Op1<S, P>,
    pub sp: Spec<S>,
    /// real bases also act on complex coefficients
    pub cx: Option<Spec<Complex<A>>>,
    pub el: Arc<dyn Elements<A>>,
}

impl<A, P: Scal, S: Scal> Base1<A, P, S> {
    pub fn len_phys(&self) -> usize {
        self.el.lens().0
    }
    pub fn len_spec(&self) -> usize {
        self.el.lens().1
    }
    pub fn len_orth(&self) -> usize {
        self.el.lens().2
    }
}

pub enum AnyBase<A> {
    R(Base1<A, A, A>),
    H(Base1<A, A, Complex<A>>),
    Z(Base1<A, Complex<A>, Complex<A>>),
}

/// Which value of the library stands for a base
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Make {
    /// enum wrapper returned by the constructor functions
    Wrapper,
    /// the concrete struct
    Struct,
    /// a clone of the wrapper that outlives its original
    Clone,
}

#[macro_export]
macro_rules! on_base {
    ($base:expr, |$b:ident| $e:expr) => {
        match $base {
            $crate::nd::AnyBase::R($b) => $e,
            $crate::nd::AnyBase::H($b) => $e,
            $crate::nd::AnyBase::Z($b) => $e,
        }
    };
}

impl<A: Real> AnyBase<A>
where
    Complex<A>: Scal,
{
    pub fn r(self) -> Base1<A, A, A> {
        match self {
            Self::R(b) => b,
            _ => panic!("FSMON: not a real base"),
        }
    }
    pub fn el(&self) -> &dyn Elements<A> {
        on_base!(self, |b| &*b.el)
    }
    /// every operation of the base
    pub fn visit<V: OpVisitor>(&self, grads: &[usize], v: &mut V) {
        fn sp<T: Scal, V: OpVisitor>(s: &Spec<T>, grads: &[usize], v: &mut V) {
            v.visit(&s.to);
            v.visit(&s.from);
            for &d in grads {
                v.visit(&s.grad.times(d));
            }
        }
        on_base!(self, |b| {
            v.visit(&b.fwd);
            v.visit(&b.bwd);
            sp(&b.sp, grads, v);
            if let Some(c) = &b.cx {
                sp(c, grads, v);
            }
        })
    }
}

/// Real-to-real kinds only.
pub fn r2r<A: FloatNum>(kind: Kind, n: usize) -> BaseR2r<A> {
    use Kind as K;
    match kind {
        K::Cheb => funspace::chebyshev(n),
        K::Dir => funspace::cheb_dirichlet(n),
        K::Neu => funspace::cheb_neumann(n),
        K::DirNeu => funspace::cheb_dirichlet_neumann(n),
        K::BihA => funspace::cheb_biharmonic_a(n),
        K::BihB => funspace::cheb_biharmonic_b(n),
        _ => panic!("FSMON: not a real-to-real kind"),
    }
}

/// Only called by the implementations of [`Real`]: this is where the code
/// under test is instantiated.
pub fn build<A: Real>(kind: Kind, n: usize, make: Make) -> AnyBase<A>
where
    Complex<A>: Scal,
{
    macro_rules! go {
        ($var:ident, $m:ty, $b:expr, $cx:expr) => {{
            let b = Arc::new($b);
            let (fwd, bwd) = transforms::<$m, _>(&b, kind, n);
            let cx = $cx;
            AnyBase::$var(Base1 { kind, n, fwd, bwd, sp: spectral::<$m, _, _>(&b, kind, n), cx: cx(&b), el: Arc::new(El(b)) })
        }};
    }
    macro_rules! real {
        ($m:ty, $b:expr) => {
            go!(R, $m, $b, |b| Some(spectral::<$m, _, _>(b, kind, n)))
        };
    }
    // the clone outlives its original
    let dup = make == Make::Clone;
    match (kind, make == Make::Struct && A::STRUCTS) {
        (Kind::R2c, false) => {
            let b = fourier_r2c::<A>(n);
            go!(H, A::Dims, if dup { b.clone() } else { b }, |_| None)
        }
        (Kind::C2c, false) => {
            let b = fourier_c2c::<A>(n);
            go!(Z, A::Dims, if dup { b.clone() } else { b }, |_| None)
        }
        (k, false) => {
            let b = r2r::<A>(k, n);
            real!(A::Dims, if dup { b.clone() } else { b })
        }
        _ => structs::<A>(kind, n),
    }
}

/// The concrete structs
fn structs<A: Real>(kind: Kind, n: usize) -> AnyBase<A>
where
    Complex<A>: Scal,
{
    use funspace::chebyshev::{Chebyshev, ChebyshevComposite};
    use funspace::fourier::{FourierC2c, FourierR2c};
    type M = DynOnly;
    macro_rules! go {
        ($var:ident, $b:expr, $cx:expr) => {{
            let b = Arc::new($b);
            let (fwd, bwd) = transforms::<M, _>(&b, kind, n);
            let cx = $cx;
            AnyBase::$var(Base1 { kind, n, fwd, bwd, sp: spectral::<M, _, _>(&b, kind, n), cx: cx(&b), el: Arc::new(El(b)) })
        }};
    }
    if !A::STRUCTS {
        panic!("FSMON: not compiled");
    }
    match kind {
        Kind::R2c => go!(H, FourierR2c::<A>::new(n), |_| None),
        Kind::C2c => go!(Z, FourierC2c::<A>::new(n), |_| None),
        Kind::Cheb => go!(R, Chebyshev::<A>::new(n), |b| Some(spectral::<M, _, _>(b, kind, n))),
        k => go!(
            R,
            match k {
                Kind::Dir => ChebyshevComposite::<A>::dirichlet(n),
                Kind::Neu => ChebyshevComposite::<A>::neumann(n),
                Kind::DirNeu => ChebyshevComposite::<A>::dirichlet_neumann(n),
                Kind::BihA => ChebyshevComposite::<A>::biharmonic_a(n),
                _ => ChebyshevComposite::<A>::biharmonic_b(n),
            },
            |b| Some(spectral::<M, _, _>(b, kind, n))
        ),
    }
}

/// Every operation of the base of a kind.
pub fn visit_kind<A: Real, V: OpVisitor>(kind: Kind, n: usize, concrete: bool, grads: &[usize], v: &mut V)
where
    Complex<A>: Scal,
{
    A::base(kind, n, if concrete { Make::Struct } else { Make::Wrapper }).visit(grads, v);
}
