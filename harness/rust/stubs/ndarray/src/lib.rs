//! Dense arrays of one or two dimensions in row order.
use std::fmt;
pub struct OwnedRepr<A>(std::marker::PhantomData<A>);
pub trait Repr { type Elem; }
impl<A> Repr for OwnedRepr<A> { type Elem = A; }
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dim<I>(pub I);
pub trait Dimension: Clone { fn dims(&self) -> &[usize]; }
impl<const N: usize> Dimension for Dim<[usize; N]> { fn dims(&self) -> &[usize] { &self.0 } }
pub type Ix1 = Dim<[usize; 1]>;
pub type Ix2 = Dim<[usize; 2]>;
pub struct ArrayBase<S: Repr, D> { v: Vec<S::Elem>, d: D }
pub type Array1<A> = ArrayBase<OwnedRepr<A>, Ix1>;
pub type Array2<A> = ArrayBase<OwnedRepr<A>, Ix2>;
pub struct ArrayView<'a, A, D> { v: &'a [A], d: D }
pub type ArrayView1<'a, A> = ArrayView<'a, A, Ix1>;
#[derive(Debug)]
pub struct ShapeError;
impl<S: Repr, D: Clone> Clone for ArrayBase<S, D> where S::Elem: Clone { fn clone(&self) -> Self { ArrayBase { v: self.v.clone(), d: self.d.clone() } } }
impl<S: Repr, D: fmt::Debug> fmt::Debug for ArrayBase<S, D> where S::Elem: fmt::Debug { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{:?}{:?}", self.d, self.v) } }
impl<A, D: Dimension> ArrayBase<OwnedRepr<A>, D> {
    pub fn shape(&self) -> &[usize] { self.d.dims() }
    pub fn iter(&self) -> std::slice::Iter<'_, A> { self.v.iter() }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn map<B, F: FnMut(&A) -> B>(&self, f: F) -> ArrayBase<OwnedRepr<B>, D> { ArrayBase { v: self.v.iter().map(f).collect(), d: self.d.clone() } }
    pub fn into_raw_vec(self) -> Vec<A> { self.v }
}
impl<A> Array1<A> {
    pub fn from_vec(v: Vec<A>) -> Self { let n = v.len(); ArrayBase { v, d: Dim([n]) } }
    pub fn to_vec(&self) -> Vec<A> where A: Clone { self.v.clone() }
}
impl<A> From<Vec<A>> for Array1<A> { fn from(v: Vec<A>) -> Self { Self::from_vec(v) } }
impl<A> Array2<A> {
    pub fn from_shape_vec(s: (usize, usize), v: Vec<A>) -> Result<Self, ShapeError> {
        if s.0 * s.1 == v.len() { Ok(ArrayBase { v, d: Dim([s.0, s.1]) }) } else { Err(ShapeError) }
    }
    pub fn get(&self, i: [usize; 2]) -> Option<&A> { if i[0] < self.d.0[0] && i[1] < self.d.0[1] { self.v.get(i[0] * self.d.0[1] + i[1]) } else { None } }
    pub fn row(&self, i: usize) -> ArrayView1<'_, A> { let w = self.d.0[1]; view(&self.v[i * w..(i + 1) * w]) }
    pub fn nrows(&self) -> usize { self.d.0[0] }
    pub fn ncols(&self) -> usize { self.d.0[1] }
}
pub fn view<A>(v: &[A]) -> ArrayView1<'_, A> { ArrayView { v, d: Dim([v.len()]) } }
impl<'a, A, D: Dimension> ArrayView<'a, A, D> {
    pub fn iter(&self) -> std::slice::Iter<'a, A> { self.v.iter() }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn shape(&self) -> &[usize] { self.d.dims() }
    pub fn view(&self) -> ArrayView<'a, A, D> { ArrayView { v: self.v, d: self.d.clone() } }
}
